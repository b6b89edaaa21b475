package h

import (
	"bytes"
	"io"
	iofs "io/fs"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/pool"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// together runs the given functions concurrently, with at most n preemptions,
// and waits for them.
func together(n int, fs ...func()) {
	nd.Sched(n)
	for _, f := range fs {
		nd.Go(f)
	}
	nd.Join()
}

// shop is an archive of stored members p, q, s/t in one folder and u in
// another, plus an empty file and a directory.
type shop struct {
	r    *sevenzip.Reader
	want map[string][]byte
}

var shopNames = []string{"p", "q", "s/t", "u"}

func shopBytes() ([]byte, map[string][]byte) {
	d := nd.Bytes(7)
	sub := []byte{kSubStreamsInfo, kNumUnpackStream, 3, 1, kSize, 2, 1, kEnd}
	st := encStreams(num(0), [][]byte{num(5), num(2)}, []*afolder{{coders: []acoder{one(0, 5)}}, {coders: []acoder{one(0, 2)}}})
	h := header(st, sub, encFiles(6, prop(kEmptyStream, []byte{0x0c}), prop(kEmptyFile, []byte{0x80}),
		encNames([]string{"p", "q", "s/t", "u", "e", "z"}[:6])))
	// members in file order: p q s/t u take data, e is an empty file, z a directory
	return archive(d, h), map[string][]byte{"p": d[:2], "q": d[2:3], "s/t": d[3:5], "u": d[5:], "e": nil}
}

func newShop() *shop {
	b, want := shopBytes()
	return &shop{r: mustOpen(b), want: want}
}

// use opens member m, reads it in chunks of k bytes, as often as reads says
// (-1: to its end), and closes it.
func (s *shop) use(m, k, reads int) {
	rc, err := s.r.File[m].Open()
	if err != nil {
		nd.Fail("a member does not open while another is used: " + err.Error())
	}
	s.consume(rc, shopNames[m], k, reads)
}

func (s *shop) consume(rc io.ReadCloser, name string, k, reads int) {
	want := s.want[name]
	at := 0
	p := make([]byte, k)
	for i := 0; reads < 0 || i < reads; i++ {
		nd.Assert(i < 10, "a member does not end")
		n, err := rc.Read(p)
		nd.Assert(n <= len(want)-at, "a member delivers more bytes than its size")
		eq(p[:n], want[at:at+n], "a member delivers bytes that are not its own while another is used")
		at += n
		if err != nil {
			nd.Assert(err == io.EOF && at == len(want), "reading a member fails while another is used")
			break
		}
	}
	nd.Assert(rc.Close() == nil, "closing a member fails while another is used")
}

//verif: prop=C26,C12,C13 budget=100 sched=1
//bounds: an archive of 4 stored members in 2 folders (arbitrary bytes), one (thorough one or two) CPUs; one goroutine reads a member partly or to its end and then another one, the other reads any member; every interleaving with at most 2 (thorough 3) preemptions at synchronisation operations, data races between them included
func H_C26_members() {
	nd.SetNumCPU(1 + nd.Choose(nd.Pick(1, 2)))
	s := newShop()
	ac := [][2]int{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {2, 2}}[nd.Choose(5)]
	a, b, c := ac[0], nd.Choose(4), ac[1]
	reads := []int{1, -1}[nd.Choose(2)]
	together(nd.Pick(2, 3), func() { s.use(a, 1, reads); s.use(c, 4, -1) }, func() { s.use(b, 2, -1) })
	for m := range shopNames {
		s.use(m, 4, -1)
	}
	nd.Cover("checked")
}

//verif: prop=C26,C12,C13 budget=100 sched=1
//bounds: as before with three goroutines reading the members of one folder, at most 1 (thorough 2) preemptions
func H_C26_three() {
	nd.SetNumCPU(1 + nd.Choose(2))
	s := newShop()
	ms := [][]int{{0, 1, 2}, {2, 2, 2}, {1, 1, 0}}[nd.Choose(3)]
	reads := []int{1, -1}[nd.Choose(2)]
	together(nd.Pick(1, 2), func() { s.use(ms[0], 1, reads) }, func() { s.use(ms[1], 4, -1) }, func() { s.use(ms[2], 2, -1) })
	for m := range shopNames {
		s.use(m, 4, -1)
	}
	nd.Cover("checked")
}

// look performs lookup i on the archive's view.
func (s *shop) look(i int) {
	switch i {
	case 0:
		f, err := s.r.Open("s/t")
		nd.Assert(err == nil, "a name is not found while another is looked up")
		s.consume(f, "s/t", 4, -1)
	case 1:
		es, err := iofs.ReadDir(s.r, ".")
		nd.Assert(err == nil && len(es) == 6, "a directory is not listed while a name is looked up")
		for i, e := range es {
			nd.Assert(e.Name() == []string{"e", "p", "q", "s", "u", "z"}[i], "a directory lists other names while a name is looked up")
		}
	case 2:
		fi, err := iofs.Stat(s.r, "s")
		nd.Assert(err == nil && fi.IsDir(), "a directory is not found while another name is looked up")
	case 3:
		_, err := s.r.Open("none")
		nd.Assert(err != nil, "a name that is not in the archive is found")
	case 4:
		b, err := iofs.ReadFile(s.r, "p")
		nd.Assert(err == nil, "a name is not found while another is looked up")
		eq(b, s.want["p"], "a file reads as other bytes while another is looked up")
	case 5:
		f, err := s.r.Open("s")
		nd.Assert(err == nil, "a directory does not open while another name is looked up")
		es, err := f.(iofs.ReadDirFile).ReadDir(-1)
		nd.Assert(err == nil && len(es) == 1 && es[0].Name() == "t", "a directory lists other names while a name is looked up")
		nd.Assert(f.Close() == nil, "closing a directory fails")
	}
}

//verif: prop=C26,C15 budget=100 sched=1
//bounds: two goroutines each performing any of 6 first lookups (open a file and read it, list the root, stat and open a directory, look up a missing name, read a file) on one archive; every interleaving with at most 3 (thorough 4) preemptions
func H_C26_lookup() {
	nd.SetNumCPU(1)
	s := newShop()
	a := nd.Choose(6)
	b := nd.Choose(a + 1)
	together(nd.Pick(3, 4), func() { s.look(a) }, func() { s.look(b) })
	nd.Cover("checked")
}

//verif: prop=C26 budget=100 sched=1
//bounds: one goroutine reads members while the other looks names up, lists or opens the archive again from the same bytes; at most 2 (thorough 3) preemptions
func H_C26_mixed() {
	nd.SetNumCPU(1)
	b, want := shopBytes()
	src := bytes.NewReader(b)
	r, err := sevenzip.NewReader(src, int64(len(b)))
	nd.Assert(err == nil, "the archive is refused")
	s := &shop{r: r, want: want}
	m, l := nd.Choose(3), nd.Choose(7)
	together(nd.Pick(2, 3), func() { s.use(m, 1, 1); s.use(m, 2, -1) }, func() {
		if l < 6 {
			s.look(l)
			return
		}
		r, err := sevenzip.NewReader(src, int64(len(b)))
		nd.Assert(err == nil, "the archive is refused while a member of it is read")
		(&shop{r: r, want: want}).use(m, 4, -1)
	})
	nd.Cover("checked")
}

// checkedOut is a pooled stream that notices two owners.
type checkedOut struct {
	pos    int64
	used   bool
	closed int
}

func (c *checkedOut) Read([]byte) (int, error)       { nd.Fail("the pool reads a stream"); return 0, nil }
func (c *checkedOut) Seek(int64, int) (int64, error) { nd.Fail("the pool seeks a stream"); return 0, nil }
func (c *checkedOut) Size() int64                    { return 1 << 62 }
func (c *checkedOut) Close() error {
	nd.Assert(!c.used, "the pool closes a stream in use")
	c.closed++
	nd.Assert(c.closed == 1, "the pool closes a stream twice")
	return nil
}

//verif: prop=C26,C13 budget=100 sched=1
//bounds: two goroutines on a pool for 1..2 CPUs that holds 0..2 streams: each gets a stream for one of 3 offsets (or makes one), moves it on by 0..1 and puts it back; the first then gets once more; every interleaving with at most 4 (thorough 6) preemptions
func H_C26_pool() {
	nd.SetNumCPU(1 + nd.Choose(2))
	p, err := pool.NewPool()
	nd.Assert(err == nil, "no pool")
	for i := nd.Choose(3); i > 0; i-- {
		p.Put(int64(i), &checkedOut{pos: int64(i)})
	}
	turn := func(off, by int64, back bool) {
		var c *checkedOut
		if s, ok := p.Get(off); ok {
			c = s.(*checkedOut)
			nd.Assert(c.pos <= off, "a stream past the offset is handed out")
			nd.Assert(!c.used, "a stream is handed out twice")
			nd.Assert(c.closed == 0, "a closed stream is handed out")
		} else {
			c = &checkedOut{}
		}
		c.used = true
		c.pos = off + by
		if back {
			c.used = false
			_, err := p.Put(c.pos, c)
			nd.Assert(err == nil, "a stream is not taken back")
		}
	}
	oa, ob, by := int64(nd.Choose(3)), int64(nd.Choose(3)), int64(nd.Choose(2))
	together(nd.Pick(4, 6), func() { turn(oa, by, true); turn(ob, 0, false) }, func() { turn(ob, 1, true) })
	turn(2, 0, true)
	nd.Cover("checked")
}

//verif: prop=C26,C11 budget=100 sched=1
//bounds: two goroutines reading encrypted members of two archives with the same or different passwords, salts and cycle counts (0, 1, raw), one of them twice; every interleaving with at most 2 (thorough 3) preemptions
func H_C26_keys() {
	nd.SetNumCPU(1)
	type job struct {
		pw, salt []byte
		cyc      byte
	}
	js := []job{{[]byte("a"), nil, 0}, {[]byte("a"), []byte{1}, 0}, {[]byte("b"), nil, 1}, {[]byte("b"), []byte{1}, 0x3f}}
	x, y := js[nd.Choose(4)], js[nd.Choose(4)]
	iv := []byte{9}
	ct := make([]byte, 16)
	do := func(j job) func() {
		r := openPw(aesArchive([][]byte{aesProps(j.cyc, j.salt, iv)}, [][]byte{ct}, []int{16}), j.pw)
		want := cbc(kdf(j.pw, j.salt, j.cyc), iv, ct)
		return func() {
			rc, err := r.File[0].Open()
			if err != nil {
				nd.Fail("encrypted member refused: " + err.Error())
			}
			got, err := drain(rc, 64, 16)
			nd.Assert(err == nil, "reading an encrypted member fails")
			eq(got, want, "the key is not the one derived from password, salt and cycles")
			nd.Assert(rc.Close() == nil, "closing fails")
		}
	}
	fx, fy := do(x), do(y)
	together(nd.Pick(2, 3), func() { fx(); fx() }, fy)
	nd.Cover("checked")
}

//verif: prop=C26,C23 budget=100 sched=1
//bounds: two goroutines each building one of the 16 built-in decoders (of the same kind) over a fixed valid stream, reading it to its end or once and closing it; one then builds another; every interleaving with at most 2 preemptions
func H_C26_decoders() {
	ks := decoderKinds()
	k := ks[nd.Choose(len(ks))]
	run := func(reads int) {
		ins, want := k.stream()
		var ss []*source
		var rs []io.ReadCloser
		for _, b := range ins {
			s := src(b)
			ss = append(ss, s)
			rs = append(rs, s)
		}
		r, err := k.build(k.props, uint64(len(want)), rs)
		nd.Assert(err == nil, "a decoder cannot be built while another is used")
		unlock(r)
		p := make([]byte, 64)
		at := 0
		for i := 0; i < reads; i++ {
			n, err := r.Read(p)
			if want != nil {
				nd.Assert(n <= len(want)-at, "more data delivered than the stream can hold")
				eq(p[:n], want[at:at+n], "a decoder delivers other bytes while another is used")
			}
			at += n
			if err == io.EOF {
				break
			}
			nd.Assert(err == nil, "a decoder fails while another is used")
		}
		nd.Assert(r.Close() == nil, "closing fails")
		for _, s := range ss {
			nd.Assert(s.closed == 1, "closing does not close every source once")
		}
	}
	n := nd.Choose(2) * 2
	together(2, func() { run(n); run(1) }, func() { run(2) })
	nd.Cover("checked")
}

//verif: prop=C26 budget=60 sched=1
//bounds: one goroutine registers a decoder while the other opens and reads a member that uses another one; every interleaving with at most 3 preemptions
func H_C26_register() {
	nd.SetNumCPU(1)
	s := newShop()
	together(3, func() {
		sevenzip.RegisterDecompressor([]byte{0xee, 0x0d}, func(_ []byte, _ uint64, rs []io.ReadCloser) (io.ReadCloser, error) { return rs[0], nil })
	}, func() { s.use(0, 4, -1) })
	nd.Cover("checked")
}

// busy is a source that must not be read once it is closed.
type busy struct {
	b      []byte
	at     int
	closed int
}

func (s *busy) Read(p []byte) (int, error) {
	nd.Assert(s.closed == 0, "a source is read after it was closed")
	if s.at == len(s.b) {
		return 0, io.EOF
	}
	n := copy(p, s.b[s.at:])
	s.at += n
	return n, nil
}

func (s *busy) Close() error { s.closed++; return nil }

//verif: prop=C26,C23 budget=60 sched=1
//bounds: a Zstandard decoder with two CPUs (that is, decoding in goroutines of its own) over two raw blocks of 2 arbitrary bytes each, 0..3 reads of 1 or 4 bytes, closed, then another one read to its end; every interleaving of the decoder's goroutines at their synchronisation operations without (thorough with 1) preemption
func H_C26_zstd() {
	nd.SetNumCPU(2)
	k := kind("zstd")
	nd.SetNumCPU(2)
	nd.Sched(nd.Pick(0, 1))
	reads := nd.Choose(4)
	c := []int{1, 4}[nd.Choose(2)]
	d := nd.Bytes(4)
	for i := 0; i < 2; i++ {
		s := &busy{b: cat([]byte{0x28, 0xb5, 0x2f, 0xfd, 0x20, 4, 2 << 3, 0, 0}, d[:2], []byte{2<<3 | 1, 0, 0}, d[2:])}
		r, err := k.build(nil, 4, []io.ReadCloser{s})
		nd.Assert(err == nil, "a decoder cannot be built")
		at := 0
		p := make([]byte, c)
		for j := 0; j < reads; j++ {
			n, err := r.Read(p)
			nd.Assert(n <= len(d)-at, "more data delivered than the stream can hold")
			eq(p[:n], d[at:at+n], "a decoder delivers other bytes")
			at += n
			if err != nil {
				nd.Assert(err == io.EOF && at == len(d), "reading a valid stream fails")
				break
			}
		}
		nd.Assert(r.Close() == nil, "closing fails")
		nd.Assert(s.closed == 1, "closing does not close the source once")
		reads, c = 6, 4
	}
	nd.Cover("checked")
}
