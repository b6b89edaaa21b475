package h

import (
	iofs "io/fs"
	"time"

	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// listedTimes opens an archive of n empty entries with the given properties
// and returns the listed creation, access and modification times.
func listedTimes(n int, props ...[]byte) [][3]time.Time {
	e := make([]bool, n)
	for i := range e {
		e[i] = true
	}
	props = append(props, prop(kEmptyStream, bits(e)), encNames(names(n)))
	r := mustOpen(archive(nil, header(nil, nil, encFiles(n, props...))))
	nd.Assert(len(r.File) == n, "wrong number of files")
	var out [][3]time.Time
	for _, f := range r.File {
		out = append(out, [3]time.Time{f.Created, f.Accessed, f.Modified})
	}
	return out
}

const ticks1970 = 116444736000000000

//verif: prop=C18 budget=100
//bounds: every 64-bit FILETIME value as creation, access or modification time
func H_C18_all() {
	k := nd.Choose(3)
	v := nd.U64()
	t := listedTimes(1, optional(byte(kCTime+k), []bool{true}, le64(v)))[0]
	nd.Assert(t[k].Unix() == int64(v/10000000)-ticks1970/10000000, "the listed time is another second than the recorded one")
	nd.Assert(int64(t[k].Nanosecond()) == int64(v%10000000*100), "the listed fraction differs from the recorded one")
	nd.Assert(t[k].Location() == time.UTC, "the listed time is not in UTC")
	nd.Assert(t[(k+1)%3].IsZero() && t[(k+2)%3].IsZero(), "a time that is not recorded is set")
	nd.Cover("checked")
}

//verif: prop=C18 budget=60
//bounds: two entries, every 2^24 low part of FILETIME values around 1601, 1677, 1700, 1970, 2038, 2106, 2262, 9999, 2^63 and 2^64 ticks, one kind of time
func H_C18_eras() {
	base := []uint64{0, 24212736000000000 &^ 0xffffff, 31241376000000000 &^ 0xffffff, ticks1970 &^ 0xffffff, 137919572470000000 &^ 0xffffff,
		159394448000000000 &^ 0xffffff, 208678456000000000 &^ 0xffffff, 2650467743990000000 &^ 0xffffff, 1<<63 - 1<<23, 1<<64 - 1<<24}
	b := base[nd.Choose(len(base))]
	lo := nd.U32()
	nd.Assume(lo < 1<<24)
	v := b + uint64(lo)
	t := listedTimes(2, optional(kMTime, []bool{true, true}, append(le64(v), le64(b)...)))
	nd.Assert(t[0][2].Unix() == int64(v/10000000)-ticks1970/10000000, "the listed time is another second than the recorded one")
	nd.Assert(int64(t[0][2].Nanosecond()) == int64(v%10000000*100), "the listed fraction differs from the recorded one")
	nd.Assert(t[1][2].Unix() == int64(b/10000000)-ticks1970/10000000, "the second entry's time differs")
	nd.Cover("checked")
}

//verif: prop=C18 budget=60
//bounds: one to four entries, every combination of recorded and unrecorded times in the three kinds, explicit or implicit vectors
func H_C18_defined() {
	n := 1 + nd.Choose(4)
	var props [][]byte
	def := make([][]bool, 3)
	val := func(k, i int) uint64 { return ticks1970 + uint64(k*100+i+1)*10000000 }
	for k := 0; k < 3; k++ {
		if nd.Choose(2) == 0 {
			continue
		}
		var vs []byte
		all := nd.Choose(2) == 1
		for i := 0; i < n; i++ {
			d := all || nd.Choose(2) == 1
			def[k] = append(def[k], d)
			if d {
				vs = append(vs, le64(val(k, i))...)
			}
		}
		if all && nd.Choose(2) == 1 {
			props = append(props, prop(byte(kCTime+k), append(append([]byte{0}, bits(def[k])...), append([]byte{0}, vs...)...)))
		} else {
			props = append(props, optional(byte(kCTime+k), def[k], vs))
		}
	}
	for i, t := range listedTimes(n, props...) {
		for k := 0; k < 3; k++ {
			if i < len(def[k]) && def[k][i] {
				nd.Assert(t[k].Unix() == int64((val(k, i)-ticks1970)/10000000), "a recorded time is listed wrong")
			} else {
				nd.Assert(t[k].IsZero(), "a time that is not recorded is set")
			}
		}
	}
	nd.Cover("checked")
}

//verif: prop=C18 budget=100
//bounds: a file and an explicit directory with every 64-bit modification time, asked through the header, the opened file and the file-system view
func H_C18_info() {
	v := nd.U64()
	dir := nd.Choose(2) == 1
	name, attr := "d/f", uint32(0x20)
	if dir {
		name, attr = "d/", 0x10
	}
	r := mustOpen(archive(nil, header(nil, nil, encFiles(1, prop(kEmptyStream, []byte{0x80}), prop(kEmptyFile, bits([]bool{!dir})), encNames([]string{name}), optional(kMTime, []bool{true}, le64(v)), optional(kWinAttributes, []bool{true}, le32(attr))))))
	check := func(fi iofs.FileInfo, err error) {
		if err != nil {
			nd.Fail("no file info: " + err.Error())
		}
		nd.Assert(fi.IsDir() == dir, "the kind of entry is wrong")
		t := fi.ModTime()
		nd.Assert(t.Unix() == int64(v/10000000)-ticks1970/10000000, "the reported time is another second than the recorded one")
		nd.Assert(int64(t.Nanosecond()) == int64(v%10000000*100), "the reported fraction differs from the recorded one")
		nd.Assert(t.Location() == time.UTC, "the reported time is not in UTC")
	}
	check(r.File[0].FileInfo(), nil)
	p := name[:len(name)-1]
	if !dir {
		p = name
	}
	check(iofs.Stat(r, p))
	if !dir {
		f, err := r.Open(p)
		if err != nil {
			nd.Fail("not opened: " + err.Error())
		}
		check(f.Stat())
		nd.Cover("file")
	} else {
		nd.Cover("directory")
	}
}
