package h

import (
	iofs "io/fs"

	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// refMode is the mode recorded by an attribute value.  The upper 16 bits hold
// the POSIX mode when its file type is non-zero.
func refMode(a uint32) iofs.FileMode {
	p := a >> 16
	var m iofs.FileMode
	add := func(c bool, b iofs.FileMode) {
		if c {
			m |= b
		}
	}
	if p>>12 == 0 {
		perm := iofs.FileMode(0o666)
		if a&0x10 != 0 {
			perm = iofs.ModeDir | 0o777
		}
		if a&1 != 0 {
			perm &= ^iofs.FileMode(0o222)
		}
		return perm
	}
	m = iofs.FileMode(p & 0o777)
	t := p >> 12
	add(t == 1, iofs.ModeNamedPipe)
	add(t == 2, iofs.ModeDevice|iofs.ModeCharDevice)
	add(t == 4, iofs.ModeDir)
	add(t == 6, iofs.ModeDevice)
	add(t == 10, iofs.ModeSymlink)
	add(t == 12, iofs.ModeSocket)
	add(p>>11&1 == 1, iofs.ModeSetuid)
	add(p>>10&1 == 1, iofs.ModeSetgid)
	add(p>>9&1 == 1, iofs.ModeSticky)
	return m
}

//verif: prop=C19 budget=60
//bounds: every 32-bit attribute value, recorded for a member with data or for an empty entry, names with and without a trailing slash, next to an entry without attributes
func H_C19_mode() {
	a := nd.U32()
	name := []string{"d", "d/", "x/d"}[nd.Choose(3)]
	var props [][]byte
	empty := nd.Choose(3)
	var e []byte
	switch empty {
	case 0:
		e = []byte{0x40}
	case 1:
		e = []byte{0xc0}
	case 2:
		e = []byte{0xc0}
		props = append(props, prop(kEmptyFile, []byte{0x80}))
	}
	props = append([][]byte{prop(kEmptyStream, e)}, props...)
	props = append(props, optional(kWinAttributes, []bool{true, false}, le32(a)), encNames([]string{name, "n"}))
	var st []byte
	if empty == 0 {
		st = encStreams(num(0), [][]byte{num(1)}, []*afolder{{coders: []acoder{one(0, 1)}}})
	}
	r := mustOpen(archive([]byte{7}, header(st, nil, encFiles(2, props...))))
	f := r.File[0]
	want := refMode(a)
	nd.Assert(f.Attributes == a, "the attributes differ from the recorded ones")
	nd.Assert(f.Mode() == want, "the mode differs from what the attributes record")
	fi := f.FileInfo()
	nd.Assert(fi.Mode() == want, "the file info has another mode than the header")
	nd.Assert(fi.IsDir() == (want&iofs.ModeDir != 0), "the file info disagrees about being a directory")
	if de, ok := fi.(iofs.DirEntry); ok {
		nd.Assert(de.Type() == want&iofs.ModeType, "the entry type differs from the mode")
		i2, err := de.Info()
		nd.Assert(err == nil && i2.Mode() == want, "the entry's info has another mode")
		nd.Cover("entry")
	}
	slash := f.Name[len(f.Name)-1] == '/'
	if name == "d/" {
		nd.Assert(f.Name == name, "the name is changed")
	} else {
		nd.Assert(slash == (want&iofs.ModeDir != 0), "the trailing slash of the name disagrees with the mode")
		if slash {
			nd.Assert(f.Name == name+"/", "the name is changed")
		} else {
			nd.Assert(f.Name == name, "the name is changed")
		}
	}
	nd.Assert(fi.Name() == "d", "the file info has another name")
	g := r.File[1]
	nd.Assert(g.Attributes == 0 && g.Mode() == 0o666 && g.Name == "n", "an entry without attributes is not a plain file")
	if want&iofs.ModeDir != 0 {
		nd.Cover("dir")
	} else {
		nd.Cover("file")
	}
}

//verif: prop=C19 budget=60
//bounds: every 32-bit value set in a FileHeader by the caller
func H_C19_header() {
	f := mustOpen(archive(nil, header(nil, nil, encFiles(1, prop(kEmptyStream, []byte{0x80}), encNames(names(1)))))).File[0]
	a := nd.U32()
	f.FileHeader.Attributes = a
	nd.Assert(f.FileHeader.Mode() == refMode(a), "the mode differs from what the attributes record")
	nd.Cover("checked")
}
