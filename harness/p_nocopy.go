package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"time"

	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
)

func init() {
	register(&Prop{
		ID: "C22", Quick: 18000, Thorough: 300000,
		Rule:        "a case imports (or trickle-appends) a generated file with no-copy references and raw leaves, records every leaf handed to the store with its PosInfo, and checks path, stat, exact bytes at the offset and a gap-free cover of the file, plus root equality with the copying import and the up-front refusals; non-trivial = at least two leaves, keyed by parameters and content",
		Assumptions: []string{"the source file is a stand-in implementing files.FileInfo; half of the cases use the files package's own reader over it"},
		Required:    []string{"leaves", "layouts_balanced", "layouts_trickle", "appends", "refused", "repeated_blocks", "plain_imports", "protobuf_leaves", "long_imports"},
		Run:         runC22,
	})
}

type fakeStat struct {
	name string
	size int64
}

func (f *fakeStat) Name() string       { return f.name }
func (f *fakeStat) Size() int64        { return f.size }
func (f *fakeStat) Mode() os.FileMode  { return 0o644 }
func (f *fakeStat) ModTime() time.Time { return time.Unix(1, 0) }
func (f *fakeStat) IsDir() bool        { return false }
func (f *fakeStat) Sys() interface{}   { return nil }

func (s impSpec) nocopy(m ipld.DAGService, rd io.Reader, on bool) (*h.DagBuilderHelper, error) {
	p := s.params(m)
	p.NoCopy = on
	return p.New(s.ch.splitter(rd))
}

// checkCover judges the leaves handed to the store for one imported file.
func checkCover(c *Case, m *memDAG, pos []posinfoRecord, data []byte, path string, st *fakeStat) {
	c.Check(m.rawAdds == 0, "no-posinfo", "%d raw leaves were handed to the store without position information", m.rawAdds)
	ps := append([]posinfoRecord(nil), pos...)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].offset < ps[j].offset })
	at := uint64(0)
	seen := map[string]bool{}
	for i, p := range ps {
		c.Check(p.path == path, "path", "leaf %d carries path %q, want %q", i, p.path, path)
		c.Check(p.stat == os.FileInfo(st), "stat", "leaf %d carries another stat (%v)", i, p.stat)
		end := p.offset + uint64(len(p.data))
		c.Check(end <= uint64(len(data)) && end >= p.offset, "range", "leaf %d of %d bytes at offset %d exceeds the file's %d bytes", i, len(p.data), p.offset, len(data))
		c.Check(bytes.Equal(p.data, data[p.offset:end]), "bytes", "leaf %d: the file does not hold its %d bytes at offset %d", i, len(p.data), p.offset)
		if len(p.data) == 0 {
			continue
		}
		c.Check(p.offset == at, "cover", "leaf %d starts at %d, the previous one ends at %d", i, p.offset, at)
		at = end
		if seen[p.c.KeyString()] {
			c.Count("repeated_blocks", 1)
		}
		seen[p.c.KeyString()] = true
	}
	c.Check(at == uint64(len(data)), "cover", "the leaves end at %d, the file has %d bytes", at, len(data))
	c.Count("leaves", len(ps))
}

func runC22(c *Case) {
	if c.Index == 5 {
		runLongImport(c, true)
		return
	}
	r := c.R
	s := genImp(r)
	s.raw = true
	n := s.genLen(r, 250)
	if k, ok := s.realChunks(r, 0.005); ok {
		n = k
		c.Count("real_chunk_sizes", 1)
	}
	data := genData(r, n)
	path := pick(r, "/a/b", "/x", "/dir with space/é.bin")
	st := &fakeStat{"b", int64(len(data))}
	open := func(d []byte, p string, st *fakeStat) io.Reader {
		rd := c.srcReader(d)
		if p != "" && r.Chance(0.5) {
			f, err := files.NewReaderPathFile(p, io.NopCloser(rd), st)
			c.Must(err, "file")
			return f
		}
		return &infoReader{Reader: rd, path: p, st: st}
	}
	c.Logf("%s, %d bytes", s, len(data))

	// refusals
	if r.Chance(0.3) {
		m := newMemDAG()
		var rd io.Reader = bytes.NewReader(data)
		if r.Chance(0.5) {
			rd = open(data, "", st)
		}
		_, err := s.nocopy(m, rd, true)
		c.Check(errors.Is(err, h.ErrMissingFsRef), "refuse", "no-copy without a path gives %v", err)
		c.Check(m.n == 0, "refuse", "the refused import touched the store")
		c.Count("refused", 1)
	}

	ref, _ := s.ref(data, nil)
	m := newMemDAG()
	if r.Chance(0.15) { // a path alone does not make references
		db, err := s.nocopy(m, open(data, path, st), false)
		c.Must(err, "plain")
		nd, err := s.layout(db)
		c.Must(err, "plain")
		c.Check(len(m.pos) == 0, "plain", "a copying import recorded file positions")
		c.Check(nd.Cid().Equals(ref.c), "plain-root", "root %s, want %s", nd.Cid(), ref.c)
		c.Count("plain_imports", 1)
	}
	if r.Chance(0.15) { // protobuf leaves are not bytes of the file
		s2 := s
		s2.raw = false
		ref2, _ := s2.ref(data, nil)
		m := newMemDAG()
		db, err := s2.nocopy(m, open(data, path, st), true)
		c.Must(err, "pbleaves")
		nd, err := s2.layout(db)
		c.Must(err, "pbleaves")
		c.Check(len(m.pos) == 0, "pbleaves", "%d nodes that are not raw leaves carry a file position", len(m.pos))
		c.Check(nd.Cid().Equals(ref2.c), "pbleaves-root", "root %s, want %s", nd.Cid(), ref2.c)
		c.Count("protobuf_leaves", 1)
	}
	m = newMemDAG()
	db, err := s.nocopy(m, open(data, path, st), true)
	c.Must(err, "nocopy")
	nd, err := s.layout(db)
	c.Must(err, "import")
	c.Check(nd.Cid().Equals(ref.c), "root", "root %s, without no-copy %s", nd.Cid(), ref.c)
	if len(data) > 0 || s.trickle {
		checkCover(c, m, m.pos, data, path, st)
	}
	leaves := len(m.pos)
	if s.trickle {
		c.Count("layouts_trickle", 1)
		for k := r.Intn(3); k > 0; k-- {
			if s.ch.size > 1000 {
				s.ch = genChunks(r)
			}
			more := genData(r, s.genLen(r, 60))
			s.ch = genChunks(r)
			p2, st2 := pick(r, "/a/b", "/second"), &fakeStat{"c", int64(len(more))}
			m.pos, m.rawAdds = nil, 0
			db, err := s.nocopy(m, open(more, p2, st2), true)
			c.Must(err, "nocopy")
			base, err := m.get(nd.Cid())
			c.Must(err, "base")
			nd, err = trickle.Append(bg, base, db)
			c.Must(err, "append")
			c.Must(m.Add(bg, nd), "add")
			checkCover(c, m, m.pos, more, p2, st2)
			data = append(append([]byte(nil), data...), more...)
			c.Count("appends", 1)
		}
	} else {
		c.Count("layouts_balanced", 1)
	}
	a, err := m.audit(nd.Cid())
	c.Must(err, "audit")
	c.Check(bytes.Equal(a.content, data), "content", "%s", diffBytes(a.content, data))
	m.checkIntegrity(c)
	key := ""
	if leaves > 1 {
		key = s.String() + bytesKey(data)
	}
	c.Eval(key)
	c.Sample(fmt.Sprintf("%s: %d bytes, %d leaves with positions", s, len(data), leaves))
}

type infoReader struct {
	io.Reader
	path string
	st   *fakeStat
}

func (i *infoReader) Close() error         { return nil }
func (i *infoReader) Size() (int64, error) { return i.st.size, nil }
func (i *infoReader) AbsPath() string      { return i.path }
func (i *infoReader) Stat() os.FileInfo    { return i.st }

var _ files.FileInfo = (*infoReader)(nil)
