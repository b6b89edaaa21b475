package h

import (
	"io"
	iofs "io/fs"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// anyName is a name of n characters, each a slash, a backslash, a dot or an
// arbitrary other ASCII character.
func anyName(n int) string {
	b := make([]byte, n)
	for i := range b {
		switch nd.Choose(4) {
		case 0:
			b[i] = '/'
		case 1:
			b[i] = '\\'
		case 2:
			b[i] = '.'
		case 3:
			b[i] = nd.U8()
			nd.Assume(nd.And(b[i] > 0, b[i] < 0x80))
			nd.Assume(nd.And(b[i] != '/', nd.And(b[i] != '\\', b[i] != '.')))
		}
	}
	return string(b)
}

// elems is where a name is to be listed: its elements below the root, with
// both kinds of slash separating, empty and dot elements left out and dot-dot
// removing the element before it.
func elems(name string) []string {
	var e []string
	start := 0
	for i := 0; i <= len(name); i++ {
		if i < len(name) && name[i] != '/' && name[i] != '\\' {
			continue
		}
		switch s := name[start:i]; s {
		case "", ".":
		case "..":
			if len(e) > 0 {
				e = e[:len(e)-1]
			}
		default:
			e = append(e, s)
		}
		start = i + 1
	}
	return e
}

// node is a listed path.
type node struct {
	name  string
	dir   bool
	dup   bool
	file  int // member, -1: only implied by a member below it
	child []*node
}

func (n *node) find(name string) *node {
	for _, c := range n.child {
		if c.name == name {
			return c
		}
	}
	return nil
}

// tree is the file system the members' names describe.
func tree(r *sevenzip.Reader) *node {
	root := &node{dir: true, file: -1}
	for i, f := range r.File {
		e := elems(f.Name)
		if len(e) == 0 {
			continue
		}
		at := root
		for _, s := range e[:len(e)-1] {
			c := at.find(s)
			if c == nil {
				c = &node{name: s, dir: true, file: -1}
				at.child = append(at.child, c)
			}
			if !c.dir {
				c.dup = true
			}
			at = c
		}
		dir := f.Name[len(f.Name)-1] == '/'
		c := at.find(e[len(e)-1])
		switch {
		case c == nil:
			at.child = append(at.child, &node{name: e[len(e)-1], dir: dir, file: i})
		case c.file < 0:
			// so far only a parent
			c.file, c.dup = i, !dir
			c.dir = dir
		default:
			c.dup = true
		}
	}
	return root
}

// names lists the children in order.
func (n *node) sorted() []*node {
	out := append([]*node(nil), n.child...)
	for i := range out {
		for j := i; j > 0 && out[j].name < out[j-1].name; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func readDir(f iofs.File, count int) ([]iofs.DirEntry, error) {
	d, ok := f.(iofs.ReadDirFile)
	if !ok {
		nd.Fail("a directory cannot be listed")
	}
	return d.ReadDir(count)
}

func openView(r *sevenzip.Reader, p string) iofs.File {
	f, err := r.Open(p)
	if err != nil {
		nd.Fail("a listed name does not open")
	}
	return f
}

// walk compares the view below path with the tree below n.
func walk(r *sevenzip.Reader, n *node, path string, page int) {
	want := n.sorted()
	dup := false
	for _, c := range want {
		dup = dup || c.dup
	}
	got, err := readDir(openView(r, path), -1)
	if dup {
		nd.Assert(err != nil, "a directory with members that clash is listed as if they did not")
		nd.Cover("duplicate")
	} else {
		nd.Assert(err == nil, "listing a directory fails")
		nd.Assert(len(got) == len(want), "a directory lists more or fewer entries than its children")
		for i, e := range got {
			same(e, want[i])
		}
		// page by page
		f := openView(r, path)
		i := 0
		for {
			es, err := readDir(f, page)
			if err == io.EOF {
				nd.Assert(len(es) == 0, "entries are listed along with the end")
				break
			}
			nd.Assert(err == nil && len(es) > 0 && len(es) <= page, "a page of a listing fails or has the wrong length")
			for _, e := range es {
				nd.Assert(i < len(want), "paging lists more entries than there are")
				same(e, want[i])
				i++
			}
		}
		nd.Assert(i == len(want), "paging lists fewer entries than there are")
		es, err := readDir(f, -1)
		nd.Assert(err == nil && len(es) == 0, "a listing at its end does not end")
	}
	for _, c := range want {
		p := c.name
		if path != "." {
			p = path + "/" + p
		}
		nd.Assert(iofs.ValidPath(p), "a listed name is not a valid path")
		if c.dup {
			continue
		}
		f := openView(r, p)
		st, err := f.Stat()
		nd.Assert(err == nil, "a listed entry cannot describe itself")
		nd.Assert(st.Name() == c.name, "an opened entry has another name than the listed one")
		nd.Assert(st.IsDir() == c.dir && st.Mode().IsDir() == c.dir, "an opened entry is of another kind than the listed one")
		if c.dir {
			if _, err := f.Read(make([]byte, 1)); err == nil {
				nd.Fail("reading a directory succeeds")
			}
			walk(r, c, p, page)
			continue
		}
		b, err := drain(f, 2, 8)
		nd.Assert(err == nil, "reading a listed file fails")
		nd.Assert(uint64(len(b)) == r.File[c.file].UncompressedSize, "a listed file reads with another length")
		if len(b) > 0 {
			nd.Assert(b[0] == byte(c.file), "a listed file reads as another member")
		}
		nd.Assert(f.Close() == nil, "closing fails")
	}
}

// same asserts that a listed entry is the expected one.
func same(e iofs.DirEntry, c *node) {
	nd.Assert(e.Name() == c.name, "an entry is listed under another name or out of order")
	nd.Assert(e.IsDir() == c.dir && e.Type().IsDir() == c.dir, "an entry is listed as another kind")
	i, err := e.Info()
	nd.Assert(err == nil && i.Name() == c.name && i.IsDir() == c.dir, "an entry describes itself by another name or kind")
}

// view is an archive of members of one byte (their index) with the given
// names; the ones marked are directories.
func view(nm []string, dir []bool) *sevenzip.Reader {
	n := len(nm)
	var attrs []byte
	packed := 0
	def := make([]bool, n)
	var data []byte
	var fs []*afolder
	var packs [][]byte
	for i := range nm {
		def[i] = true
		if dir[i] {
			attrs = append(attrs, le32(0x10)...)
			continue
		}
		attrs = append(attrs, le32(0x20)...)
		packed++
		data = append(data, byte(i))
		fs = append(fs, &afolder{coders: []acoder{one(0, 1)}})
		packs = append(packs, num(1))
	}
	ps := [][]byte{optional(kWinAttributes, def, attrs), encNames(nm)}
	if packed < n {
		ps = append(ps, prop(kEmptyStream, bits(dir)))
	}
	var st []byte
	if packed > 0 {
		st = encStreams(num(0), packs, fs)
	}
	return mustOpen(archive(data, header(st, nil, encFiles(n, ps...))))
}

//verif: prop=C15,C16 budget=100
//bounds: two members, files or directories in every combination, with names of 1..3 and 0..2 (thorough 0..3 each) characters, each a slash, backslash, dot or any other ASCII character; pages of one entry
func H_C15_two() {
	nm := []string{anyName(nd.Choose(nd.Pick(3, 4))), anyName(1 + nd.Choose(nd.Pick(2, 3)))}
	r := view(nm, []bool{nd.Choose(2) == 1, nd.Choose(2) == 1})
	walk(r, tree(r), ".", 1)
	nd.Cover("checked")
}

//verif: prop=C15,C16 budget=100
//bounds: one member, file or directory, with a name of 0..5 (thorough 6) characters, each a slash, backslash, dot or any other ASCII character
func H_C15_one() {
	r := view([]string{anyName(nd.Choose(nd.Pick(6, 7)))}, []bool{nd.Choose(2) == 1})
	walk(r, tree(r), ".", 2)
	nd.Cover("checked")
}

// element is an element of a path: empty, dot, dot-dot, a character, or a name
// that starts with dots.
func element() string {
	switch nd.Choose(4) {
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return ".."
	}
	c := nd.U8()
	nd.Assume(nd.And(c > 0, c < 0x80))
	nd.Assume(nd.And(c != '/', c != '\\'))
	if nd.Choose(2) == 0 {
		nd.Assume(c != '.')
		return string([]byte{c})
	}
	return string([]byte{'.', '.', c})
}

//verif: prop=C15,C16 budget=100
//bounds: one member, file or directory, whose name has 1..4 (thorough 5) elements, each empty, dot, dot-dot, any character or dot-dot followed by any character, separated by slashes or backslashes
func H_C16_elements() {
	sep := []string{"/", "\\"}[nd.Choose(2)]
	n := element()
	for i := nd.Choose(nd.Pick(4, 5)); i > 0; i-- {
		n += sep + element()
	}
	r := view([]string{n}, []bool{nd.Choose(2) == 1})
	walk(r, tree(r), ".", 2)
	nd.Cover("checked")
}

//verif: prop=C15,C16 budget=100
//bounds: three members, the first two of a fixed set of nested, unordered and clashing names, the third, a file or directory, of 1..2 (thorough 3) characters, each a slash, backslash, dot or any other ASCII character; pages of 1..3 entries
func H_C15_three() {
	first := [][2]string{{"a/b/c", "a/b"}, {"b/", "a"}, {"a", "a/b"}, {"a.b", "a/b"}, {"b/a/", "a/b/"}, {"a!/x", "a/x"}}[nd.Choose(6)]
	nm := []string{first[0], first[1], anyName(1 + nd.Choose(nd.Pick(2, 3)))}
	r := view(nm, []bool{false, false, nd.Choose(2) == 1})
	walk(r, tree(r), ".", 1+nd.Choose(3))
	nd.Cover("checked")
}

// lookup finds a path in the tree.
func (n *node) lookup(p string) *node {
	if p == "." {
		return n
	}
	start := 0
	for i := 0; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		if n = n.find(p[start:i]); n == nil {
			return nil
		}
		start = i + 1
	}
	return n
}

//verif: prop=C15,C16 budget=100
//bounds: six members below three directories (implied, explicit and nested), opened under every name of 0..4 (thorough 5) arbitrary bytes, through the view before or after it was listed
func H_C15_lookup() {
	nm := []string{"b/a", "a", "b.c", "d/", "d/e/f", "B"}
	dir := []bool{false, false, false, true, false, false}
	r := view(nm, dir)
	t := tree(r)
	if nd.Choose(2) == 1 {
		_, err := readDir(openView(r, "."), 0)
		nd.Assert(err == nil, "listing fails")
	}
	q := nd.Bytes(nd.Choose(nd.Pick(5, 6)))
	name := string(q)
	f, err := r.Open(name)
	if !iofs.ValidPath(name) {
		nd.Assert(err != nil, "an invalid path opens")
		pe, ok := err.(*iofs.PathError)
		nd.Assert(ok && pe.Err == iofs.ErrInvalid, "an invalid path is not refused as invalid")
		nd.Cover("invalid")
		return
	}
	n := t.lookup(name)
	if n == nil {
		nd.Assert(err != nil, "a name that is not listed opens")
		pe, ok := err.(*iofs.PathError)
		nd.Assert(ok && pe.Err == iofs.ErrNotExist, "a name that is not listed is not reported as not existing")
		nd.Cover("missing")
		return
	}
	nd.Assert(err == nil, "a listed name does not open")
	st, err := f.Stat()
	nd.Assert(err == nil && st.IsDir() == n.dir, "an opened entry is of another kind than the listed one")
	if name != "." {
		nd.Assert(st.Name() == n.name, "an opened entry has another name than the listed one")
	}
	if !n.dir {
		b, err := drain(f, 2, 8)
		nd.Assert(err == nil && len(b) == 1 && b[0] == byte(n.file), "a listed file reads as another member")
	}
	nd.Cover("found")
}

//verif: prop=C15 budget=60
//bounds: a directory of 0..5 files and sub-directories listed by pages of any size (all 2^64 counts), each page of its own size
func H_C15_pages() {
	n := nd.Choose(6)
	nm := []string{"d/", "d/x", "d/y/z", "d/a", "d/w/", "d/b"}[:n+1]
	if n == 0 {
		nm = []string{"d/"}
	}
	r := view(nm, []bool{true, false, false, false, true, false}[:len(nm)])
	f := openView(r, "d")
	want := tree(r).find("d").sorted()
	i := 0
	for k := 0; k < 4; k++ {
		c := nd.Int()
		es, err := readDir(f, c)
		left := len(want) - i
		if c <= 0 {
			nd.Assert(err == nil && len(es) == left, "listing the rest of a directory is wrong")
			nd.Cover("rest")
		} else if left == 0 {
			nd.Assert(err == io.EOF && len(es) == 0, "a listing at its end does not end")
			nd.Cover("end")
		} else {
			nd.Assert(err == nil, "a page of a listing fails")
			m := left
			if c < left {
				m = nd.Concrete(c)
			}
			nd.Assert(len(es) == m, "a page has the wrong length")
		}
		for _, e := range es {
			same(e, want[i])
			i++
		}
	}
}

//verif: prop=C15,C12 budget=60
//bounds: an archive whose members (with data, empty and a directory) are read through the view, by name, in chunks of 1 or 4 bytes, twice, with arbitrary contents; a closed file delivers nothing
func H_C15_read() {
	d := nd.Bytes(3)
	sub := []byte{kSubStreamsInfo, kNumUnpackStream, 2, kSize, 2, kEnd}
	h := header(encStreams(num(0), [][]byte{num(3)}, []*afolder{{coders: []acoder{one(0, 3)}}}), sub,
		encFiles(4, prop(kEmptyStream, []byte{0x50}), prop(kEmptyFile, []byte{0x80}), encNames([]string{"p", "e", "q/r", "s/"}), optional(kWinAttributes, []bool{false, false, false, true}, le32(0x10))))
	r := mustOpen(archive(d, h))
	want := map[string][]byte{"p": d[:2], "e": nil, "q/r": d[2:]}
	k := []int{1, 4}[nd.Choose(2)]
	order := [][]string{{"p", "e", "q/r"}, {"q/r", "p", "e"}}[nd.Choose(2)]
	for i := 0; i < 2; i++ {
		for _, p := range order {
			f := openView(r, p)
			b, err := drain(f, k, 8)
			nd.Assert(err == nil, "reading a listed file fails")
			eq(b, want[p], "a file of the view reads as other bytes than its member's")
			nd.Assert(f.Close() == nil, "closing fails")
			n, err := f.Read(make([]byte, 1))
			nd.Assert(n == 0 && err != nil, "a closed file delivers data")
		}
	}
	nd.Cover("checked")
}
