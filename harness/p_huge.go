package main

import (
	"bytes"
	"context"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	posinfo "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	"github.com/ipfs/go-unixfs/importer/balanced"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	mh "github.com/multiformats/go-multihash"
)

// Files of many GiB, described by a few blocks: nodes are linked repeatedly.

type foldedNode struct {
	link rLink
	size uint64
	data []byte
	kids []*foldedNode
}

// read fills b from off; off+len(b) is at most the size.
func (n *foldedNode) read(off uint64, b []byte) {
	if n.kids == nil {
		copy(b, n.data[off:])
		return
	}
	for _, k := range n.kids {
		if len(b) == 0 {
			return
		}
		if off >= k.size {
			off -= k.size
			continue
		}
		l := min(uint64(len(b)), k.size-off)
		k.read(off, b[:l])
		b, off = b[l:], 0
	}
}

func genFolded(c *Case, m *memDAG) (*foldedNode, ipld.Node) {
	r := c.R
	b := pick(r, builders[:6]...)
	store := func(raw []byte, k cid.Cid, n *foldedNode) *foldedNode {
		m.put(k, raw)
		n.link.Cid = k
		return n
	}
	var level []*foldedNode
	for i := r.Range(1, 3); i > 0; i-- {
		d := r.Bytes(r.Range(1, 3000))
		if r.Chance(0.02) {
			d = r.Bytes(r.Range(1<<20, 5<<19))
		}
		n := &foldedNode{data: d, size: uint64(len(d))}
		if r.Chance(0.5) {
			n.link.Tsize = n.size
			level = append(level, store(d, b.raw(d), n))
			continue
		}
		raw := encDagPB(nil, (&uMsg{Type: pick(r, uint64(uFile), uint64(uRaw)), Data: d, Filesize: u64(n.size)}).encode())
		n.link.Tsize = uint64(len(raw))
		level = append(level, store(raw, b.pb(raw), n))
	}
	target := uint64(1) << uint(pick(r, 31, 32, 33, 33, 36, 40, 50))
	for {
		var next []*foldedNode
		for i := r.Range(1, 2); i > 0; i-- {
			n := &foldedNode{}
			u := &uMsg{Type: uFile}
			var links []rLink
			for k := r.Range(2, pick(r, 4, 20, 60)); k > 0; k-- {
				kid := level[r.Intn(len(level))]
				n.kids = append(n.kids, kid)
				n.size += kid.size
				u.Blocksizes = append(u.Blocksizes, kid.size)
				links = append(links, kid.link)
				n.link.Tsize += kid.link.Tsize
			}
			u.Filesize = u64(n.size)
			raw := encDagPB(links, u.encode())
			n.link.Tsize += uint64(len(raw))
			next = append(next, store(raw, b.pb(raw), n))
		}
		level = next
		if level[0].size > target {
			break
		}
	}
	root := level[0]
	nd, err := m.Get(bg, root.link.Cid)
	c.Must(err, "get")
	c.Logf("a file of %d bytes in %d blocks", root.size, len(m.blocks))
	c.Max("max_file_bytes_log2", log2(root.size))
	return root, nd
}

func log2(n uint64) int {
	k := -1
	for ; n > 0; n >>= 1 {
		k++
	}
	return k
}

// hotOffset is an offset into a file of the given size, often near one where
// a narrower integer would overflow, or near a boundary of the DAG.
func hotOffset(r *Rng, root *foldedNode, size uint64) uint64 {
	var off uint64
	switch r.Intn(6) {
	case 0:
		off = pick(r, uint64(1)<<31, 1<<32, 3<<31, 1<<33) - 3 + uint64(r.Intn(6))
	case 1:
		off = size - min(size, uint64(r.Intn(2000)))
		if r.Chance(0.03) {
			off = size - min(size, uint64(r.Intn(4<<20)))
		}
	case 2:
		off = uint64(r.Intn(3000))
	case 3:
		n := root
		for n.kids != nil {
			k := r.Intn(len(n.kids))
			for _, x := range n.kids[:k] {
				off += x.size
			}
			n = n.kids[k]
			if r.Chance(0.3) {
				break
			}
		}
		off += uint64(r.Intn(3))
		if off > 0 {
			off--
		}
	default:
		off = r.Uint64()
	}
	if off > size {
		off %= size + 1
	}
	return off
}

func runC04Huge(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	root, nd := genFolded(c, m)
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "open")
	defer dr.Close()
	c.Check(dr.Size() == root.size, "size", "Size() = %d, want %d", dr.Size(), root.size)
	pos := uint64(0)
	key := root.link.Cid.String()
	for i := r.Range(4, 25); i > 0; i-- {
		if r.Chance(0.6) {
			to := hotOffset(r, root, root.size)
			var got int64
			var err error
			switch r.Intn(3) {
			case 0:
				got, err = dr.Seek(int64(to), io.SeekStart)
			case 1:
				got, err = dr.Seek(int64(to)-int64(pos), io.SeekCurrent)
			default:
				got, err = dr.Seek(int64(to)-int64(root.size), io.SeekEnd)
			}
			c.Logf("seek from %d to %d: %d", pos, to, got)
			c.Must(err, "huge-seek")
			c.Check(got == int64(to), "huge-seek", "a seek to %d gives %d", to, got)
			pos = to
			c.Count("huge_seeks", 1)
		}
		n := uint64(r.Intn(4000))
		if r.Chance(0.01) {
			n = uint64(r.Intn(5 << 20))
		}
		want := make([]byte, min(n, root.size-pos))
		root.read(pos, want)
		b := make([]byte, n)
		var got int
		var err error
		if left := root.size - pos; left < 4<<20 && r.Chance(0.2) {
			var w bytes.Buffer
			_, err = dr.WriteTo(&w)
			c.Must(err, "huge-writeto")
			want = make([]byte, left)
			root.read(pos, want)
			c.Check(bytes.Equal(w.Bytes(), want), "huge-data", "WriteTo at %d/%d: %s", pos, root.size, diffBytes(w.Bytes(), want))
			pos = root.size
			continue
		}
		if r.Chance(0.5) {
			got, err = dr.Read(b)
		} else {
			got, err = dr.CtxReadFull(bg, b)
		}
		c.Logf("read %d at %d: %d, %v", n, pos, got, err)
		c.Check(got == len(want), "huge-read-n", "read of %d at %d/%d gives %d bytes (%v)", n, pos, root.size, got, err)
		c.Check(bytes.Equal(b[:got], want), "huge-data", "read of %d at %d/%d: %s", n, pos, root.size, diffBytes(b[:got], want))
		if err != nil {
			c.Check(err == io.EOF && pos+uint64(got) == root.size, "huge-read-err", "read of %d at %d/%d: %v", n, pos, root.size, err)
		}
		pos += uint64(got)
	}
	p, err := dr.Seek(0, io.SeekCurrent)
	c.Must(err, "huge-tell")
	c.Check(uint64(p) == pos, "huge-tell", "the cursor is at %d, want %d", p, pos)
	c.Count("huge_files", 1)
	c.Eval("huge" + key)
}

// patched is a folded file with changes.
type patched struct {
	base  *foldedNode
	limit uint64 // what is left of base
	size  uint64
	patch []patch
}

type patch struct {
	off  uint64
	data []byte
}

func (p *patched) write(off uint64, d []byte) {
	p.patch = append(p.patch, patch{off, append([]byte(nil), d...)})
	p.size = max(p.size, off+uint64(len(d)))
}

func (p *patched) truncate(n uint64) {
	if n > p.size {
		p.write(p.size, make([]byte, n-p.size))
		return
	}
	p.size = n
	p.limit = min(p.limit, n)
	for i := range p.patch {
		x := &p.patch[i]
		if x.off >= n {
			x.data = nil
		} else if x.off+uint64(len(x.data)) > n {
			x.data = x.data[:n-x.off]
		}
	}
}

func (p *patched) read(off, n uint64) []byte {
	if off >= p.size {
		return nil
	}
	b := make([]byte, min(n, p.size-off))
	if off < p.limit {
		p.base.read(off, b[:min(uint64(len(b)), p.limit-off)])
	}
	end := off + uint64(len(b))
	for _, x := range p.patch {
		lo, hi := max(off, x.off), min(end, x.off+uint64(len(x.data)))
		if lo < hi {
			copy(b[lo-off:hi-off], x.data[lo-x.off:])
		}
	}
	return b
}

// auditSizes checks the size metadata of every block of a file, each once.
func auditSizes(c *Case, m *memDAG, root cid.Cid) uint64 {
	type sizes struct{ file, tsize uint64 }
	memo := map[string]sizes{}
	var rec func(k cid.Cid) sizes
	rec = func(k cid.Cid) sizes {
		if s, ok := memo[k.KeyString()]; ok {
			return s
		}
		raw, ok := m.block(k)
		c.Check(ok, "huge-missing", "block %s is missing", k)
		s := sizes{uint64(len(raw)), uint64(len(raw))}
		if k.Prefix().Codec == cid.DagProtobuf {
			links, data, err := parseDagPB(raw)
			c.Must(err, "huge-parse")
			u, err := parseUMsg(data)
			c.Must(err, "huge-parse")
			s.file = uint64(len(u.Data))
			c.Check(len(u.Blocksizes) == len(links), "huge-sizes", "%d links, %d sizes", len(links), len(u.Blocksizes))
			for i, l := range links {
				x := rec(l.Cid)
				c.Check(x.file == u.Blocksizes[i], "huge-sizes", "child %d has %d bytes, recorded are %d", i, x.file, u.Blocksizes[i])
				c.Check(x.tsize == l.Tsize, "huge-tsize", "child %d has a total size of %d, recorded is %d", i, x.tsize, l.Tsize)
				s.file += x.file
				s.tsize += x.tsize
			}
			c.Check(u.Filesize != nil && *u.Filesize == s.file, "huge-sizes", "a node of %d bytes records %d", s.file, val(u.Filesize))
		}
		memo[k.KeyString()] = s
		return s
	}
	return rec(root).file
}

// runHugeMod drives a modifier on a huge file.
func runHugeMod(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	setLinksPerBlock(pick(r, 4, 8, 64, 174))
	root, nd := genFolded(c, m)
	dm, err := mod.NewDagModifier(bg, nd, m, chunkSpec{size: pick(r, 64, 512, 1000)}.gen())
	c.Must(err, "open")
	p := &patched{base: root, limit: root.size, size: root.size}
	key := root.link.Cid.String()
	check := func(dr interface {
		io.Reader
		io.Seeker
	}, what string) {
		for i := r.Range(1, 5); i > 0; i-- {
			off := hotOffset(r, root, p.size)
			if k := len(p.patch); k > 0 && r.Chance(0.7) {
				x := p.patch[r.Intn(k)]
				off = min(x.off-min(x.off, uint64(r.Intn(20))), p.size)
			}
			got, err := dr.Seek(int64(off), io.SeekStart)
			c.Must(err, "huge-seek")
			c.Check(got == int64(off), "huge-seek", "%s: a seek to %d gives %d", what, off, got)
			k := r.Range(1, 3000)
			if r.Chance(0.005) {
				k = r.Range(1, 4<<20)
			}
			want := p.read(off, uint64(k))
			b := make([]byte, len(want))
			n, err := io.ReadFull(dr, b)
			c.Check(n == len(b) && (err == nil || n == 0), "huge-read", "%s: read of %d at %d/%d gives %d, %v", what, len(b), off, p.size, n, err)
			c.Check(bytes.Equal(b, want), "huge-data", "%s: at %d/%d: %s", what, off, p.size, diffBytes(b, want))
			c.Count("huge_reads", 1)
		}
	}
	for i := r.Range(2, 12); i > 0; i-- {
		switch op := r.Intn(8); {
		case op < 3: // overwrite, perhaps beyond the end
			off := hotOffset(r, root, p.size)
			d := r.Bytes(r.Range(1, 2500))
			c.Logf("WriteAt %d bytes at %d/%d", len(d), off, p.size)
			n, err := dm.WriteAt(d, int64(off))
			c.Must(err, "huge-write")
			c.Check(n == len(d), "huge-write", "WriteAt of %d bytes gives %d", len(d), n)
			p.write(off, d)
			key += fmt.Sprint("w", off)
		case op == 3:
			d := r.Bytes(r.Range(1, 2500))
			c.Logf("append %d bytes to %d", len(d), p.size)
			n, err := dm.Seek(0, io.SeekEnd)
			c.Must(err, "huge-seekend")
			c.Check(uint64(n) == p.size, "huge-seekend", "a seek to the end gives %d, want %d", n, p.size)
			_, err = dm.Write(d)
			c.Must(err, "huge-write")
			p.write(p.size, d)
			key += "a"
			if r.Chance(0.5) { // and from there
				off := hotOffset(r, root, p.size)
				n, err := dm.Seek(int64(off)-int64(p.size), io.SeekCurrent)
				c.Must(err, "huge-seekcur")
				c.Check(uint64(n) == off, "huge-seekcur", "a seek from %d to %d gives %d", p.size, off, n)
				d := r.Bytes(r.Range(1, 2500))
				c.Logf("there, write %d bytes at %d", len(d), off)
				_, err = dm.Write(d)
				c.Must(err, "huge-write")
				p.write(off, d)
				key += fmt.Sprint("s", off)
			}
		case op == 4:
			n := hotOffset(r, root, p.size)
			if r.Chance(0.2) {
				n = p.size + uint64(r.Intn(2000))
				if r.Chance(0.05) {
					n = p.size + uint64(r.Intn(16<<20))
				}
			}
			c.Logf("Truncate %d to %d", p.size, n)
			c.Must(dm.Truncate(int64(n)), "huge-truncate")
			p.truncate(n)
			key += fmt.Sprint("t", n)
		case op == 5:
			nd, err := dm.GetNode()
			c.Must(err, "huge-getnode")
			c.Check(auditSizes(c, m, nd.Cid()) == p.size, "huge-size", "the node has another size than %d", p.size)
			dr, err := uio.NewDagReader(bg, nd, m)
			c.Must(err, "huge-open")
			check(dr, "fresh reader")
			dr.Close()
		default:
			check(dm, "modifier")
		}
		n, err := dm.Size()
		c.Must(err, "huge-size")
		c.Check(uint64(n) == p.size, "huge-size", "Size() = %d, want %d", n, p.size)
	}
	nd, err = dm.GetNode()
	c.Must(err, "huge-getnode")
	c.Check(auditSizes(c, m, nd.Cid()) == p.size, "huge-size", "the node has another size than %d", p.size)
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "huge-open")
	defer dr.Close()
	c.Check(dr.Size() == p.size, "huge-size", "a reader's Size() = %d, want %d", dr.Size(), p.size)
	check(dr, "fresh reader")
	c.Count("huge_files", 1)
	c.Eval("huge" + key)
}

// zeroSplitter produces n chunks, all the same slice.
type zeroSplitter struct {
	n     int
	chunk []byte
	r     io.Reader
}

func (s *zeroSplitter) Reader() io.Reader { return s.r }
func (s *zeroSplitter) NextBytes() ([]byte, error) {
	if s.n == 0 {
		return nil, io.EOF
	}
	s.n--
	return s.chunk, nil
}

// lightDAG stores without looking.
type lightDAG struct {
	*memDAG
	offsets []uint64
}

func (l *lightDAG) Add(ctx context.Context, nd ipld.Node) error {
	if fn, ok := nd.(*posinfo.FilestoreNode); ok {
		l.offsets = append(l.offsets, fn.PosInfo.Offset)
		nd = fn.Node
	}
	if _, ok := l.block(nd.Cid()); !ok {
		l.put(nd.Cid(), nd.RawData())
	}
	return nil
}

func (l *lightDAG) AddMany(ctx context.Context, nds []ipld.Node) error {
	for _, nd := range nds {
		l.Add(ctx, nd)
	}
	return nil
}

// runLongImport imports a stream of more than 4 GiB, whose chunks are all the
// same, with references into the file or without.
func runLongImport(c *Case, nocopy bool) {
	r := c.R
	m := &lightDAG{memDAG: newMemDAG()}
	// Not just the root, but also a child of it has more than 4 GiB (or just
	// 4 GiB).
	chunk := r.Bytes(1 << 20)
	s := impSpec{maxlinks: r.Range(64, 70), raw: true}
	chunks := s.maxlinks*s.maxlinks + r.Range(1, 200)
	if !nocopy && r.Chance(0.4) {
		s.trickle = true
		s.maxlinks = pick(r, 163, 164, 820, 820, 4097)
		chunks = 8250 + r.Range(1, 200)
	}
	s.b = bspec{b: cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.MURMUR3X64_64, MhLength: -1}, name: "v1-murmur"}
	p := s.params(m)
	p.NoCopy = nocopy
	st := &fakeStat{"long", int64(chunks) << 20}
	db, err := p.New(&zeroSplitter{chunks, chunk, &infoReader{Reader: bytes.NewReader(nil), path: "/long", st: st}})
	c.Must(err, "newhelper")
	var nd ipld.Node
	if s.trickle {
		nd, err = trickle.Layout(db)
	} else {
		nd, err = balanced.Layout(db)
	}
	c.Must(err, "import")
	want := uint64(chunks) << 20
	c.Logf("%d chunks of 1 MiB, %d links, trickle=%v", chunks, s.maxlinks, s.trickle)
	c.Check(auditSizes(c, m.memDAG, nd.Cid()) == want, "long-size", "the root has another size than %d", want)
	sz, err := nd.Size()
	c.Must(err, "size")
	c.Check(sz > want, "long-size", "cumulative size %d of a file of %d bytes", sz, want)
	if nocopy {
		seen := map[uint64]bool{}
		for _, x := range m.offsets {
			c.Check(x%(1<<20) == 0 && x < want && !seen[x], "long-offset", "a leaf at offset %d", x)
			seen[x] = true
		}
		c.Check(len(seen) == chunks, "long-cover", "%d of %d leaves recorded", len(seen), chunks)
	}
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "open")
	defer dr.Close()
	b := make([]byte, 2000)
	for i := 0; i < 10; i++ {
		off := pick(r, uint64(1)<<31, 1<<32, want-1000, uint64(r.Intn(chunks))<<20) - uint64(r.Intn(500))
		if off >= want {
			continue
		}
		_, err := dr.Seek(int64(off), io.SeekStart)
		c.Must(err, "seek")
		n, _ := io.ReadFull(dr, b)
		for j := 0; j < n; j++ {
			if b[j] != chunk[(off+uint64(j))%(1<<20)] {
				c.Fail("long-data", "a wrong byte at %d", off+uint64(j))
			}
		}
		c.Check(n == len(b) || off+uint64(n) == want, "long-data", "read %d bytes at %d/%d", n, off, want)
	}
	c.Count("long_imports", 1)
	c.Eval(fmt.Sprint("long", chunks, s.maxlinks, s.trickle))
}
