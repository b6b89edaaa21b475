package h

import (
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

var graphID = []byte{0xee, 0x27}

// tagged delivers a tag followed by its inputs one after another.
type tagged struct {
	tag  []byte
	ins  []io.ReadCloser
}

func (t *tagged) Read(p []byte) (int, error) {
	if len(t.tag) > 0 {
		n := copy(p, t.tag)
		t.tag = t.tag[n:]
		return n, nil
	}
	for len(t.ins) > 0 {
		n, err := t.ins[0].Read(p)
		if n > 0 {
			return n, nil
		}
		if err == io.EOF {
			t.ins = t.ins[1:]
			continue
		}
		nd.Assert(err == nil, "reading an input stream fails")
	}
	return 0, io.EOF
}

func (t *tagged) Close() error { return nil }

func registerTagged() {
	sevenzip.RegisterDecompressor(graphID, func(p []byte, _ uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		for _, r := range rs {
			if r == nil {
				nd.Fail("a coder receives a missing input")
			}
		}
		return &tagged{tag: append([]byte(nil), p...), ins: append([]io.ReadCloser(nil), rs...)}, nil
	})
}

// graph is an arbitrary tree of n coders in decoding order with 1..maxIn
// inputs each; it returns the folder, its packed streams in recorded order
// and the decoded contents.
func graph(n, maxIn, maxLen int, tag byte, free bool) (*afolder, [][]byte, []byte) {
	f := &afolder{}
	var outs [][]byte // decoded output of each coder
	used := make([]bool, n)
	in := 0
	type pin struct {
		in int
		b  []byte
	}
	var pins []pin
	for i := 0; i < n; i++ {
		k := 1 + nd.Choose(maxIn)
		out := []byte{tag + byte(i)}
		for j := 0; j < k; j++ {
			// the source: a packed stream or an output not used so far
			var av []int
			for o := 0; o < i; o++ {
				if !used[o] {
					av = append(av, o)
				}
			}
			c := nd.Choose(len(av) + 1)
			if c < len(av) {
				used[av[c]] = true
				f.binds = append(f.binds, [2]int{in, av[c]})
				out = append(out, outs[av[c]]...)
			} else {
				b := nd.Bytes(1 + len(pins)%maxLen)
				pins = append(pins, pin{in, b})
				out = append(out, b...)
			}
			in++
		}
		// the recorded size may be smaller than what the coder could deliver
		size := len(out)
		if free && nd.Choose(2) == 1 {
			size--
		}
		out = out[:size]
		outs = append(outs, out)
		f.coders = append(f.coders, acoder{id: graphID, in: k, out: 1, props: []byte{tag + byte(i)}, size: num(uint64(size))})
	}
	for o := 0; o < n-1; o++ {
		if !used[o] {
			nd.Stop() // more than one unbound output: not a tree
		}
	}
	if len(pins) == 0 {
		nd.Stop()
	}
	var packs [][]byte
	for _, p := range permutation(len(pins)) {
		f.packed = append(f.packed, pins[p].in)
		packs = append(packs, pins[p].b)
	}
	for i, p := range permutation(len(f.binds)) {
		if i < p {
			f.binds[i], f.binds[p] = f.binds[p], f.binds[i]
		}
	}
	return f, packs, outs[n-1]
}

// graphArchive has one member per folder.
func graphArchive(pos int, gap []byte, fs []*afolder, packs [][]byte) []byte {
	packed := append([]byte(nil), gap[:pos]...)
	var sizes [][]byte
	for _, p := range packs {
		packed = append(packed, p...)
		sizes = append(sizes, num(uint64(len(p))))
	}
	packed = append(packed, 0xdd, 0xdd)
	return archive(packed, header(encStreams(num(uint64(pos)), sizes, fs), nil, encFiles(len(fs), encNames(names(len(fs))))))
}

func checkMember(r *sevenzip.Reader, i int, want []byte, rd int) {
	f := r.File[i]
	nd.Assert(f.UncompressedSize == uint64(len(want)), "wrong size")
	rc, err := f.Open()
	if err != nil {
		nd.Fail("a member of a valid coder graph does not open: " + err.Error())
	}
	got, err := drain(rc, rd, len(want))
	nd.Assert(err == nil, "reading a member of a valid coder graph fails")
	eq(got, want, "a member is not the output of its coder graph")
	nd.Assert(rc.Close() == nil, "closing a member fails")
}

//verif: prop=C27 budget=100
//bounds: one folder that is any tree of 1..2 (thorough 3) coders with 1..3 inputs or 3 (thorough 4) coders with 1..2 inputs each in decoding order, bind pairs and packed-stream indices in every order, packed streams of 1..2 arbitrary bytes after a gap of 0..1, reads of 1 or 16 bytes
func H_C27_graph() {
	registerTagged()
	n := 1 + nd.Choose(nd.Pick(3, 4))
	in := 2
	if n < nd.Pick(3, 4) {
		in = 3
	}
	f, packs, want := graph(n, in, 2, 0xa0, false)
	pos := nd.Choose(2)
	r := mustOpen(graphArchive(pos, []byte{0xcc}, []*afolder{f}, packs))
	checkMember(r, 0, want, []int{1, 16}[nd.Choose(2)])
	if n > 1 {
		nd.Cover("bound")
	}
	if len(packs) > 1 {
		nd.Cover("packed")
	}
}

//verif: prop=C27 budget=100
//bounds: one folder that is any tree of 1..3 coders with 1..2 inputs, each coder with a recorded size equal to what it delivers or one less
func H_C27_sizes() {
	registerTagged()
	f, packs, want := graph(1+nd.Choose(3), 2, 1, 0xa0, true)
	r := mustOpen(graphArchive(0, nil, []*afolder{f}, packs))
	checkMember(r, 0, want, 16)
	nd.Cover("checked")
}

//verif: prop=C27 budget=100
//bounds: three folders, each any tree of 1..2 coders with 1..2 (first folder 1..3) inputs, read in every order after a gap of 0..2 arbitrary bytes, each member read twice
func H_C27_folders() {
	registerTagged()
	var fs []*afolder
	var packs, want [][]byte
	for i := 0; i < 3; i++ {
		n := 1 + nd.Choose(2)
		if i == 1 {
			n = 1
		}
		f, p, w := graph(n, 2, 2, byte(0xa0+16*i), false)
		fs = append(fs, f)
		packs = append(packs, p...)
		want = append(want, w)
	}
	pos := nd.Choose(2) * 2
	r := mustOpen(graphArchive(pos, nd.Bytes(2), fs, packs))
	o := nd.Choose(3)
	for k := 0; k < 4; k++ {
		i := (o + k) % 3
		checkMember(r, i, want[i], 16)
	}
	nd.Cover("checked")
}

// sparse is a huge archive of which only the places that hold something exist.
type sparse struct {
	sig, hdr []byte
	end      uint64 // position of the header
	from, size uint64 // the only part of the packed streams that may be read
	reads    int
}

func (s *sparse) ReadAt(p []byte, off int64) (int, error) {
	o := uint64(off)
	if o < 32 {
		b := append(append([]byte(nil), s.sig...), make([]byte, 8192)...)[o:]
		return copy(p, b), nil
	}
	if o >= s.end {
		o -= s.end
		if o >= uint64(len(s.hdr)) {
			return 0, io.EOF
		}
		n := copy(p, s.hdr[o:])
		if n < len(p) {
			return n, io.EOF
		}
		return n, nil
	}
	nd.Assert(s.size > 0, "packed streams are read while opening the archive")
	d := o - s.from
	nd.Assert(d < 1<<62, "a packed stream is read before its start")
	nd.Assert(d <= s.size && s.size-d >= uint64(len(p)), "a packed stream is read past its end")
	if s.reads == 0 {
		nd.Assert(d == 0, "a packed stream is not read from its start")
	}
	s.reads++
	return copy(p, []byte{1}), nil
}

//verif: prop=C27 budget=100
//bounds: two or three folders with 1..2 packed streams each, arbitrary 58-bit pack position and packed sizes, every packed stream in turn, of at least 4096 bytes, read from its start
func H_C27_offsets() {
	id := []byte{0xee, 0x28}
	pick := 0
	sevenzip.RegisterDecompressor(id, func(_ []byte, _ uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		return rs[pick], nil
	})
	nf := 2 + nd.Choose(2)
	pos := nd.U64() >> 6
	at := pos
	var fs []*afolder
	var packs [][]byte
	var start, size []uint64
	var fold, idx []int
	for i := 0; i < nf; i++ {
		k := 1 + nd.Choose(2)
		f := &afolder{coders: []acoder{{id: id, in: k, out: 1, size: num(1)}}}
		for j := 0; j < k; j++ {
			s := nd.U64() >> 6
			start, size = append(start, at), append(size, s)
			fold, idx = append(fold, i), append(idx, j)
			packs = append(packs, num9(s))
			at += s
			f.packed = append(f.packed, j)
		}
		fs = append(fs, f)
	}
	h := header(encStreams(num9(pos), packs, fs), nil, encFiles(nf, encNames(names(nf))))
	const end = 1 << 61
	a := append(append(le64(end), le64(uint64(len(h)))...), crc(h)...)
	sp := &sparse{hdr: h, end: 32 + end}
	sp.sig = append(append(append([]byte(nil), sig...), 0, 4), append(crc(a), a...)...)
	r, err := sevenzip.NewReader(sp, int64(32+end)+int64(len(h)))
	nd.Assert(err == nil, "a well-formed archive is refused")
	k := nd.Choose(len(fold))
	pick = idx[k]
	nd.Assume(size[k] >= 4096)
	sp.from, sp.size = 32+start[k], size[k]
	rc, err := r.File[fold[k]].Open()
	nd.Assert(err == nil, "a member does not open")
	b := make([]byte, 1)
	n, err := rc.Read(b)
	nd.Assert(n == 1 && (err == nil || err == io.EOF) && b[0] == 1, "a member is not read from its packed stream")
	nd.Assert(sp.reads > 0, "a member is not read from its packed stream")
	nd.Cover("checked")
}

//verif: prop=C27 budget=60
//bounds: one folder that is a chain of 15..18 or 32..33 coders, its bind pairs in either order, over one packed stream, or one coder with as many inputs, its packed streams in either order; packed streams of one arbitrary byte each
func H_C27_many() {
	registerTagged()
	n := []int{15, 16, 17, 18, 32, 33}[nd.Choose(6)]
	f := &afolder{}
	var packs [][]byte
	var want []byte
	rev := nd.Choose(2) == 1
	if nd.Choose(2) == 0 {
		b := nd.Bytes(1)
		packs = [][]byte{b}
		want = append(want, b...)
		for i := 0; i < n; i++ {
			want = append([]byte{byte(i)}, want...)
			f.coders = append(f.coders, acoder{id: graphID, in: 1, out: 1, props: []byte{byte(i)}, size: num(uint64(len(want)))})
			if i > 0 {
				f.binds = append(f.binds, [2]int{i, i - 1})
			}
		}
		f.packed = []int{0}
		for i := len(f.binds) - 1; rev && i > len(f.binds)-1-i; i-- {
			j := len(f.binds) - 1 - i
			f.binds[i], f.binds[j] = f.binds[j], f.binds[i]
		}
	} else {
		in := nd.Bytes(n)
		want = append([]byte{0xa0}, in...)
		for i := range in {
			k := i
			if rev {
				k = n - 1 - i
			}
			f.packed = append(f.packed, k)
			packs = append(packs, in[k:k+1])
		}
		f.coders = []acoder{{id: graphID, in: n, out: 1, props: []byte{0xa0}, size: num(uint64(n + 1))}}
	}
	r := mustOpen(graphArchive(0, nil, []*afolder{f}, packs))
	checkMember(r, 0, want, 64)
	nd.Cover("checked")
}
