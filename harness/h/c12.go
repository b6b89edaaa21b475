package h

import (
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// world is an archive whose folders are decoded by a registered coder that
// delivers recorded contents, together with what was opened so far.
type world struct {
	r     *sevenzip.Reader
	data  [][]byte // decoded contents of each folder
	fold  []int    // folder of each member
	off   []int    // offset of each member in its folder
	size  []int
	srcs  []*source
	chunk int
	eof   bool
	open  []*handle
	cpus  int
}

type handle struct {
	rc   io.ReadCloser
	m    int // member
	pos  int
	done bool // its end was reported
}

var worldID = []byte{0xee, 0x07}

// newWorld builds an archive with the given member sizes per folder.
func newWorld(cpus int, sizes ...[]int) *world {
	w := &world{cpus: cpus}
	nd.SetNumCPU(cpus)
	var fs []*afolder
	var packs [][]byte
	sub := []byte{kSubStreamsInfo, kNumUnpackStream}
	var ss []byte
	n := 0
	for i, sz := range sizes {
		t := 0
		for j, s := range sz {
			w.fold = append(w.fold, i)
			w.off = append(w.off, t)
			w.size = append(w.size, s)
			if j < len(sz)-1 {
				ss = append(ss, num(uint64(s))...)
			}
			t += s
			n++
		}
		var d []byte
		if t <= 16 {
			d = nd.Bytes(t)
		} else {
			d = make([]byte, t)
			for j := range d {
				d[j] = byte(j * 7 >> 2)
			}
			copy(d[t-2:], nd.Bytes(2))
		}
		w.data = append(w.data, d)
		fs = append(fs, &afolder{coders: []acoder{{id: worldID, in: 1, out: 1, props: []byte{byte(i)}, size: num(uint64(t))}}})
		packs = append(packs, num(0))
		sub = append(sub, num(uint64(len(sz)))...)
	}
	if len(ss) > 0 {
		sub = append(append(sub, kSize), ss...)
	}
	sub = append(sub, kEnd)
	sevenzip.RegisterDecompressor(worldID, func(p []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) {
		s := src(append([]byte(nil), w.data[p[0]]...))
		s.chunk, s.eof = w.chunk, w.eof
		w.srcs = append(w.srcs, s)
		return s, nil
	})
	w.r = mustOpen(archive(nil, header(encStreams(num(0), packs, fs), sub, encFiles(n, encNames(names(n))))))
	return w
}

func (w *world) opn(m int) {
	f := w.r.File[m]
	nd.Assert(f.UncompressedSize == uint64(w.size[m]), "wrong size")
	rc, err := f.Open()
	if err != nil {
		nd.Fail("a member does not open: " + err.Error())
	}
	w.open = append(w.open, &handle{rc: rc, m: m})
	w.check()
}

// read performs one read of k bytes.
func (w *world) read(h *handle, k int) int {
	buf := make([]byte, k)
	n, err := h.rc.Read(buf)
	left := w.size[h.m] - h.pos
	nd.Assert(n >= 0 && n <= k, "Read returned a count outside 0..len(p)")
	nd.Assert(n <= left, "a member delivers more bytes than its size")
	o := w.off[h.m] + h.pos
	eq(buf[:n], w.data[w.fold[h.m]][o:o+n], "a member delivers bytes that are not its own")
	h.pos += n
	if err != nil {
		nd.Assert(err == io.EOF, "reading a member fails")
		nd.Assert(h.pos == w.size[h.m], "a member ends early")
	}
	h.done = err != nil
	return n
}

// finish reads a member to its end.
func (w *world) finish(h *handle, k int) {
	for i := 0; !h.done; i++ {
		nd.Assert(i < 40, "a member does not end")
		w.read(h, k)
	}
	nd.Assert(h.pos == w.size[h.m], "a member ends early")
}

func (w *world) cls(i int, again bool) {
	h := w.open[i]
	nd.Assert(h.rc.Close() == nil, "closing a member fails")
	w.open = append(append([]*handle(nil), w.open[:i]...), w.open[i+1:]...)
	// a closed member delivers nothing and may be closed again
	if again {
		n, err := h.rc.Read(make([]byte, 1))
		nd.Assert(n == 0 && err != nil, "a closed member delivers data")
		nd.Assert(h.rc.Close() == nil, "closing a member again fails")
	}
	w.check()
}

// check compares the streams in use with the members open.
func (w *world) check() {
	live := 0
	for _, s := range w.srcs {
		nd.Assert(s.closed <= 1, "a stream is closed twice")
		if s.closed == 0 {
			live++
		}
	}
	users := 0
	for _, h := range w.open {
		if w.size[h.m] > 0 {
			users++
		}
	}
	nd.Assert(live >= users, "a stream is shared by two members or closed while a member is open")
	nd.Assert(live <= len(w.open)+w.cpus*len(w.data), "more streams are kept than there are processors")
}

// step performs one arbitrary operation with at most max members open.
func (w *world) step(max int) {
	n := len(w.r.File)
	acts := 3 * len(w.open)
	if len(w.open) < max {
		acts += n
	}
	a := nd.Choose(acts)
	if a < 3*len(w.open) {
		switch a % 3 {
		case 0:
			w.read(w.open[a/3], 1)
		case 1:
			w.read(w.open[a/3], 4)
		case 2:
			w.cls(a/3, true)
		}
		return
	}
	w.opn(a - 3*len(w.open))
}

// all reads every member in full.
func (w *world) all(k int) {
	fin := nd.Choose(2) == 1
	for len(w.open) > 0 {
		if fin {
			w.finish(w.open[0], k)
		}
		w.cls(0, false)
	}
	for m := range w.r.File {
		w.opn(m)
		w.finish(w.open[0], k)
		w.cls(0, false)
	}
}

var shapes = [][]int{{2, 1, 2}, {1, 0, 2}, {2, 2}}

//verif: prop=C12,C13 budget=100
//bounds: one folder of 2..3 members of 0..2 arbitrary bytes, one CPU, decoded in chunks of 1 (with the end reported with the last byte) or all bytes, every history of 5 (thorough 7) operations (open any member, read 1 or 4 bytes, close, read and close after closing) with at most 2 members open, then closing all and reading every member in full
func H_C12_history() {
	i := nd.Choose(len(shapes))
	w := newWorld(1, shapes[i])
	if i == 0 {
		w.chunk, w.eof = 1, true
	}
	for k := nd.Pick(5, 7); k > 0; k-- {
		w.step(2)
	}
	w.all(3)
	nd.Cover("checked")
}

//verif: prop=C12,C13 budget=100
//bounds: two folders (2 and 1..2 members of 1..2 bytes), one or two CPUs, every history of 4 (thorough 5) operations with at most 3 members open
func H_C12_folders() {
	w := newWorld(1+nd.Choose(2), []int{1, 2}, [][]int{{2}, {1, 1}}[nd.Choose(2)])
	for k := nd.Pick(4, 5); k > 0; k-- {
		w.step(3)
	}
	w.all(2)
	nd.Cover("checked")
}

//verif: prop=C12,C13,C14 budget=100
//bounds: one folder of four members, one of them larger than the 4096 byte buffers (4090..4100 bytes), members opened and read for 0, 1 or all bytes in every order of 2 (thorough 3), with read buffers of 1000 and 5000 bytes
func H_C12_large() {
	w := newWorld(1+nd.Choose(2), []int{1, 4090 + 5*nd.Choose(3), 2, 1})
	k := []int{1000, 5000}[nd.Choose(2)]
	for i := nd.Pick(2, 3); i > 0; i-- {
		w.opn(nd.Choose(4))
		h := w.open[len(w.open)-1]
		switch nd.Choose(3) {
		case 0:
			w.finish(h, k)
		case 1:
			w.read(h, 1)
		}
		if nd.Choose(2) == 0 {
			w.cls(len(w.open)-1, false)
		}
	}
	w.all(k)
	nd.Cover("checked")
}
