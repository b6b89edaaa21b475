package h

import (
	"bytes"
	"errors"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"time"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
	"github.com/spf13/afero"
)

var errOpen, errStat, errClose = errors.New("injected open failure"), errors.New("injected stat failure"), errors.New("injected close failure")

// disk is a file system of volumes with injected failures.
type disk struct {
	afero.Fs
	names []string
	data  [][]byte
	// failures by file name
	openErr, statErr, closeErr string
	index                      map[string]int
	files                      []*volume
}

type volume struct {
	afero.File
	d      *disk
	i      int
	closed int
}

type volumeInfo struct {
	iofs.FileInfo
	v *volume
}

func (i volumeInfo) Size() int64        { return int64(len(i.v.d.data[i.v.i])) }
func (i volumeInfo) Name() string       { return i.v.d.names[i.v.i] }
func (i volumeInfo) IsDir() bool        { return false }
func (i volumeInfo) Mode() iofs.FileMode { return 0o644 }
func (i volumeInfo) ModTime() time.Time { return time.Time{} }

func (d *disk) Name() string { return "disk" }

func (d *disk) Stat(name string) (os.FileInfo, error) {
	for i, n := range d.names {
		if n == filepath.Clean(name) {
			return volumeInfo{v: &volume{d: d, i: i}}, nil
		}
	}
	return nil, &iofs.PathError{Op: "stat", Path: name, Err: iofs.ErrNotExist}
}

func (d *disk) Open(name string) (afero.File, error) {
	name = filepath.Clean(name)
	if d.index == nil {
		d.index = map[string]int{}
		for i, n := range d.names {
			d.index[n] = i
		}
	}
	if i, ok := d.index[name]; ok {
		if n := d.names[i]; n == name {
			if n == d.openErr {
				return nil, &iofs.PathError{Op: "open", Path: name, Err: errOpen}
			}
			v := &volume{d: d, i: i}
			d.files = append(d.files, v)
			return v, nil
		}
	}
	return nil, &iofs.PathError{Op: "open", Path: name, Err: iofs.ErrNotExist}
}

func (d *disk) OpenFile(name string, _ int, _ os.FileMode) (afero.File, error) { return d.Open(name) }

func (v *volume) Name() string { return v.d.names[v.i] }

func (v *volume) Stat() (os.FileInfo, error) {
	if v.closed > 0 {
		nd.Fail("a closed volume is inspected")
	}
	if v.Name() == v.d.statErr {
		return nil, errStat
	}
	return volumeInfo{v: v}, nil
}

func (v *volume) ReadAt(p []byte, off int64) (int, error) {
	if v.closed > 0 {
		nd.Fail("a closed volume is read")
	}
	return bytes.NewReader(v.d.data[v.i]).ReadAt(p, off)
}

func (v *volume) Close() error {
	v.closed++
	if v.Name() == v.d.closeErr {
		return errClose
	}
	return nil
}

// closedOnce asserts that every file opened so far was closed exactly once.
func (d *disk) closedOnce() {
	for _, f := range d.files {
		nd.Assert(f.closed > 0, "a volume stays open")
		nd.Assert(f.closed == 1, "a volume is closed more than once")
	}
}

// volName is the name of volume i (from 1).
func volName(i int) string {
	s := []byte("x.7z.")
	if i < 1000 {
		return string(append(s, byte('0'+i/100), byte('0'+i/10%10), byte('0'+i%10)))
	}
	return string(append(s, byte('0'+i/1000), byte('0'+i/100%10), byte('0'+i/10%10), byte('0'+i%10)))
}

//verif: prop=C20 budget=60
//bounds: one to four volumes of 0..2 arbitrary bytes each, with a gap in the numbers at any place or none and a stray volume after it, no failure or a failure to open, inspect or close any one volume; read back at every offset and length, one past the end included
func H_C20_volumes() {
	n := 1 + nd.Choose(4)
	d := &disk{}
	gap := nd.Choose(n+1) + 1 // volumes from here on are numbered one higher
	var want []byte
	used := 0
	for i := 1; i <= n; i++ {
		b := nd.Bytes(nd.Choose(3))
		k := i
		if i > gap {
			k++
		}
		d.names = append(d.names, volName(k))
		d.data = append(d.data, b)
		if k == i {
			want = append(want, b...)
			used++
		}
	}
	bad := nd.Choose(4)
	at := 0
	if bad > 0 {
		at = nd.Choose(n)
		switch bad {
		case 1:
			d.openErr = d.names[at]
		case 2:
			d.statErr = d.names[at]
		case 3:
			d.closeErr = d.names[at]
		}
	}
	ra, size, files, err := sevenzip.VerifOpen(d, volName(1))
	if nd.Or(bad == 1, bad == 2) && at < used {
		nd.Assert(err != nil, "a volume that cannot be opened or inspected is ignored")
		if bad == 1 {
			nd.Assert(errors.Is(err, errOpen), "the error does not name its cause")
		} else {
			nd.Assert(errors.Is(err, errStat), "the error does not name its cause")
		}
		d.closedOnce()
		nd.Cover("failed")
		return
	}
	nd.Assert(err == nil, "a complete set of volumes does not open")
	nd.Assert(size == int64(len(want)), "the size differs from that of the volumes together")
	nd.Assert(len(files) == used && len(d.files) == used, "another number of volumes is opened than there are up to the first gap")
	for i, f := range files {
		nd.Assert(f.Name() == volName(i+1), "volumes are listed out of order")
		nd.Assert(d.files[i].closed == 0, "a volume is closed early")
	}
	for off := 0; off <= len(want); off++ {
		for l := 0; l <= len(want)-off+1; l++ {
			p := make([]byte, l)
			m, err := ra.ReadAt(p, int64(off))
			if l > len(want)-off {
				nd.Assert(err != nil, "reading past the end succeeds")
				continue
			}
			nd.Assert(m == l && (err == nil || err == io.EOF && off+l == len(want)), "a read across volumes is short")
			eq(p, want[off:off+l], "a read across volumes delivers other bytes than the volumes hold")
		}
	}
	nd.Cover("opened")
}

// volumes of an archive of two members, cut at the given places.
func (d *disk) split(b []byte, cuts ...int) {
	d.names, d.data = nil, nil
	at := 0
	for i, c := range append(cuts, len(b)) {
		d.names = append(d.names, volName(i+1))
		d.data = append(d.data, b[at:c])
		at = c
	}
}

// openDisk opens the archive on the disk by name.
func openDisk(d *disk, name string) (*sevenzip.ReadCloser, error) {
	sevenzip.VerifFs = d
	rc, err := sevenzip.OpenReader(name)
	sevenzip.VerifFs = nil
	return rc, err
}

func contents(f *sevenzip.File, limit int) []byte {
	rc, err := f.Open()
	if err != nil {
		nd.Fail("a member does not open: " + err.Error())
	}
	b, err := drain(rc, 3, limit)
	nd.Assert(err == nil, "reading a member fails")
	nd.Assert(rc.Close() == nil, "closing a member fails")
	return b
}

//verif: prop=C20 budget=100
//bounds: an archive of two members with arbitrary contents cut into three volumes at every pair of places (or kept whole, under a numbered or another name), opened by name, read, listed and closed; closing any one volume fails or not
func H_C20_archive() {
	p := nd.Bytes(3)
	b := archive(p, tiny())
	d := &disk{}
	name := volName(1)
	mode := nd.Choose(3)
	n := 1
	switch mode {
	case 0:
		n = 3
		i := nd.Choose(len(b) + 1)
		d.split(b, i, i+nd.Choose(len(b)-i+1))
	case 1:
		d.split(b)
	case 2:
		d.split(b)
		name = []string{"x.7z", "x.002", "x.7z.001.bak", "x001"}[nd.Choose(4)]
		d.names[0] = name
		// neighbours that are no volumes
		d.names = append(d.names, "x.001", "x.7z.002")
		d.data = append(d.data, []byte{1}, []byte{2})
	}
	if mode != 0 && nd.Choose(2) == 1 {
		d.closeErr = name
	}
	rc, err := openDisk(d, name)
	if err != nil {
		nd.Fail("a complete set of volumes does not open: " + err.Error())
	}
	nd.Assert(len(rc.File) == 2, "wrong number of members")
	eq(contents(rc.File[0], 4), p[:1], "a member of a multi-volume archive reads wrong")
	eq(contents(rc.File[1], 4), p[1:], "a member of a multi-volume archive reads wrong")
	v := rc.Volumes()
	nd.Assert(len(v) == n && len(d.files) == n, "another number of volumes is listed or opened than there are")
	for i := range v {
		nd.Assert(v[i] == d.names[i], "volumes are listed out of order")
		nd.Assert(d.files[i].closed == 0, "a volume is closed early")
	}
	err = rc.Close()
	nd.Assert((err != nil) == (d.closeErr != ""), "closing reports success or failure wrongly")
	nd.Assert(err == nil || errors.Is(err, errClose), "the error of closing does not name its cause")
	d.closedOnce()
	nd.Cover("checked")
}

//verif: prop=C20 budget=100
//bounds: an archive split into three volumes of which one has a byte changed in any way at any place of the headers, or is cut short, so that it does not open; or any one cannot be opened or inspected or closed
func H_C20_refused() {
	b := archive([]byte{1, 2, 3}, tiny())
	d := &disk{}
	want := error(nil)
	d.split(b, 20, 40)
	switch nd.Choose(4) {
	case 0:
		i := nd.Choose(len(b))
		if i == 6 || i == 7 || i >= 32 && i < 35 {
			nd.Stop()
		}
		x := nd.U8()
		nd.Assume(x != 0)
		c := append([]byte(nil), b...)
		c[i] ^= x
		d.split(c, 20, 40)
	case 1:
		d.data[2] = d.data[2][:nd.Choose(len(b)-40)]
	case 2:
		d.openErr, want = volName(1+nd.Choose(3)), errOpen
	case 3:
		d.statErr, want = volName(1+nd.Choose(3)), errStat
	}
	if nd.Choose(2) == 1 {
		d.closeErr = volName(1 + nd.Choose(3))
	}
	rc, err := openDisk(d, volName(1))
	nd.Assert(err != nil && rc == nil, "a broken set of volumes opens")
	nd.Assert(want == nil || errors.Is(err, want), "the error does not name its cause")
	d.closedOnce()
	nd.Cover("checked")
}

//verif: prop=C20 budget=60
//bounds: 9, 10, 11, 99, 100, 101, 999, 1000 or 1001 volumes, an arbitrary byte in one each of the first, middle and last
func H_C20_numbers() {
	n := []int{9, 10, 11, 99, 100, 101, 999, 1000, 1001}[nd.Choose(9)]
	d := &disk{}
	for i := 1; i <= n; i++ {
		d.names = append(d.names, volName(i))
		var b []byte
		if i == 1 || i == n/2 || i == n {
			b = []byte{nd.U8()}
		}
		d.data = append(d.data, b)
	}
	ra, size, files, err := sevenzip.VerifOpen(d, volName(1))
	nd.Assert(err == nil && size == 3 && len(files) == n, "a complete set of volumes does not open")
	p := make([]byte, 3)
	_, err = ra.ReadAt(p, 0)
	nd.Assert(err == nil || err == io.EOF, "reading fails")
	eq(p, []byte{d.data[0][0], d.data[n/2-1][0], d.data[n-1][0]}, "volumes are not in numeric order")
	for i, f := range files {
		nd.Assert(f.Name() == volName(i+1), "volumes are listed out of order")
	}
	nd.Cover("checked")
}
