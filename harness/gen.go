package main

import (
	"bytes"
	"context"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	mh "github.com/multiformats/go-multihash"
)

var builders = []bspec{
	{"nil", nil},
	{"v0", cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}},
	{"v1", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}},
	{"v1-blake2b", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.BLAKE2B_MIN + 31, MhLength: -1}},
	{"v1-sha512", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_512, MhLength: -1}},
	{"v1-sha256-20", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: 20}},
	{"V0Builder", cid.V0Builder{}},
	{"V1Builder-raw", cid.V1Builder{Codec: cid.Raw, MhType: mh.SHA2_256}},
	{"v1-identity", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.IDENTITY, MhLength: -1}},
}

// inline is only fit for one-pass imports: a node loaded from a store goes on
// with the prefix of its CID.
var inline = bspec{"inline-40", inlineBuilder{cid.V1Builder{Codec: cid.DagProtobuf, MhType: mh.SHA2_256}, 40}}

// modBuilders are those a modifier can go on with.
var modBuilders = append(append([]bspec(nil), builders[:6]...), builders[8:]...)

// inlineBuilder puts small blocks into the CID itself, a builder which is not
// just a prefix.
type inlineBuilder struct {
	cid.Builder
	limit int
}

func (b inlineBuilder) Sum(data []byte) (cid.Cid, error) {
	if len(data) > b.limit {
		return b.Builder.Sum(data)
	}
	return cid.V1Builder{Codec: b.GetCodec(), MhType: mh.IDENTITY}.Sum(data)
}

func (b inlineBuilder) WithCodec(c uint64) cid.Builder {
	return inlineBuilder{b.Builder.WithCodec(c), b.limit}
}

// genData makes n bytes; some generators repeat blocks so that distinct
// positions share CIDs.
func genData(r *Rng, n int) []byte {
	switch r.Intn(6) {
	case 0:
		return make([]byte, n) // zeros
	case 2: // one block over and over, with a byte changed here and there
		k := pick(r, 1, 2, 3, 7, 16, 64, 100, 256, 512, 512, 256)
		p := r.Bytes(k)
		b := make([]byte, n)
		for i := 0; i < n; i += k {
			copy(b[i:], p)
			if r.Chance(0.3) {
				b[min(n-1, i+r.Intn(k))]++
			}
		}
		return b
	case 1: // periodic
		p := r.Bytes(r.Range(1, 64))
		b := make([]byte, n)
		for i := range b {
			b[i] = p[i%len(p)]
		}
		return b
	default:
		return r.Bytes(n)
	}
}

// listSplitter emits prescribed chunk sizes.
type listSplitter struct {
	r     io.Reader
	sizes []int
	i     int
}

func (s *listSplitter) Reader() io.Reader { return s.r }
func (s *listSplitter) NextBytes() ([]byte, error) {
	n := 1
	if len(s.sizes) > 0 {
		n = s.sizes[s.i%len(s.sizes)]
	}
	s.i++
	b := make([]byte, n)
	k, err := io.ReadFull(s.r, b)
	if k == 0 {
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		return nil, err
	}
	if err == io.ErrUnexpectedEOF || err == io.EOF {
		err = nil
	}
	if err != nil {
		return nil, err
	}
	return b[:k], nil
}

// chunkSpec describes a chunking.
type chunkSpec struct {
	size  int   // fixed size when > 0
	sizes []int // cyclic ragged sizes otherwise
}

func (cs chunkSpec) splitter(r io.Reader) chunker.Splitter {
	if cs.size > 0 {
		return chunker.NewSizeSplitter(r, int64(cs.size))
	}
	return &listSplitter{r: r, sizes: cs.sizes}
}

func (cs chunkSpec) gen() chunker.SplitterGen {
	return func(r io.Reader) chunker.Splitter { return cs.splitter(r) }
}

func (cs chunkSpec) split(d []byte) (out [][]byte) {
	i := 0
	for len(d) > 0 {
		n := cs.size
		if n == 0 {
			n = cs.sizes[i%len(cs.sizes)]
		}
		i++
		if n > len(d) {
			n = len(d)
		}
		out = append(out, d[:n])
		d = d[n:]
	}
	return
}

func (cs chunkSpec) String() string {
	if cs.size > 0 {
		return fmt.Sprint(cs.size)
	}
	return fmt.Sprint(cs.sizes)
}

func genChunks(r *Rng) chunkSpec {
	if r.Chance(0.7) {
		return chunkSpec{size: pick(r, 1, 2, 3, 7, 16, 64, 100, 256, 512)}
	}
	n := r.Range(1, 5)
	var s []int
	for i := 0; i < n; i++ {
		s = append(s, r.Range(1, 40))
	}
	return chunkSpec{sizes: s}
}

// realChunks gives some import chunks of realistic sizes, and a length.
func (s *impSpec) realChunks(r *Rng, p float64) (int, bool) {
	if s.b.name == "v1-identity" || !r.Chance(p) {
		return 0, false
	}
	s.ch = chunkSpec{size: pick(r, 40000, 65535, 65536, 100000, 262144, 262144, 1<<20)}
	n := r.Intn(3 << 20)
	if r.Chance(0.5) {
		n += s.ch.size - n%s.ch.size + r.Range(-1, 1)
	}
	return n, true
}

// impSpec is one import configuration.
type impSpec struct {
	trickle  bool
	maxlinks int
	raw      bool
	b        bspec
	ch       chunkSpec
}

func (s impSpec) String() string {
	l := "balanced"
	if s.trickle {
		l = "trickle"
	}
	return fmt.Sprintf("%s links=%d raw=%v cid=%s chunks=%s", l, s.maxlinks, s.raw, s.b.name, s.ch)
}

func genImp(r *Rng) impSpec {
	return impSpec{
		trickle:  r.Chance(0.5),
		maxlinks: pick(r, 2, 2, 3, 3, 4, 5, 6, 8, 13, 30, 174),
		raw:      r.Chance(0.5),
		b:        pick(r, builders...),
		ch:       genChunks(r),
	}
}

// genLen picks a stream length, favouring level boundaries of the layout.
func (s impSpec) genLen(r *Rng, maxChunks int) int {
	avg := s.ch.size
	if avg == 0 {
		for _, x := range s.ch.sizes {
			avg += x
		}
		avg = avg/len(s.ch.sizes) + 1
	}
	var chunks int
	switch r.Intn(6) {
	case 0:
		chunks = r.Intn(4)
	case 1, 2: // around a power of the fanout
		chunks = 1
		for k := r.Intn(5); k >= 0 && chunks*s.maxlinks <= maxChunks; k-- {
			chunks *= s.maxlinks
		}
		chunks *= r.Range(1, 3)
		chunks += r.Range(-1, 1)
	case 3: // trickle layer boundaries
		chunks = s.maxlinks + r.Intn(5)*4*s.maxlinks + r.Range(-1, 1)
	default:
		chunks = r.Intn(maxChunks + 1)
	}
	if chunks > maxChunks {
		chunks = maxChunks
	}
	if chunks < 0 {
		chunks = 0
	}
	n := chunks * avg
	switch r.Intn(4) {
	case 0:
		n += r.Range(-1, 1)
	case 1:
		if avg > 1 {
			n += r.Intn(avg)
		}
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (s impSpec) params(ds ipld.DAGService) h.DagBuilderParams {
	return h.DagBuilderParams{Maxlinks: s.maxlinks, RawLeaves: s.raw, CidBuilder: s.b.b, Dagserv: ds}
}

func (s impSpec) layout(db *h.DagBuilderHelper) (ipld.Node, error) {
	if s.trickle {
		return trickle.Layout(db)
	}
	return balanced.Layout(db)
}

func (s impSpec) importReader(ds ipld.DAGService, rd io.Reader) (ipld.Node, error) {
	p := s.params(ds)
	db, err := p.New(s.ch.splitter(rd))
	if err != nil {
		return nil, err
	}
	return s.layout(db)
}

func (s impSpec) importBytes(ds ipld.DAGService, d []byte) (ipld.Node, error) {
	return s.importReader(ds, bytes.NewReader(d))
}

func (s impSpec) ref(d []byte, store map[string][]byte) (rNode, *refImporter) {
	ri := &refImporter{chunks: s.ch.split(d), maxlinks: s.maxlinks, rawLeaf: s.raw, b: s.b, store: store}
	if s.trickle {
		return ri.trickle(), ri
	}
	return ri.balanced(), ri
}

// audit ---------------------------------------------------------------------

type auditResult struct {
	content []byte
	nodes   int
	leaves  int
	raws    int
	depth   int
	cids    []cid.Cid
	leafCid []cid.Cid
}

// auditFile walks the stored DAG below c with the reference parsers and
// checks completeness and every size field. It returns an error describing
// the first inconsistency.
func auditFile(get func(cid.Cid) ([]byte, bool), root cid.Cid) (*auditResult, error) {
	res := &auditResult{}
	type info struct{ fsize, tsize uint64 }
	var walk func(c cid.Cid, depth int) (info, error)
	walk = func(c cid.Cid, depth int) (info, error) {
		raw, ok := get(c)
		if !ok {
			return info{}, fmt.Errorf("block %s (depth %d) is not in the store", c, depth)
		}
		if sum, err := c.Prefix().Sum(raw); err != nil || !sum.Equals(c) {
			return info{}, fmt.Errorf("block %s does not match its hash", c)
		}
		res.nodes++
		res.cids = append(res.cids, c)
		if depth > res.depth {
			res.depth = depth
		}
		if c.Prefix().Codec == cid.Raw {
			res.leaves++
			res.raws++
			res.leafCid = append(res.leafCid, c)
			res.content = append(res.content, raw...)
			return info{uint64(len(raw)), uint64(len(raw))}, nil
		}
		links, data, err := parseDagPB(raw)
		if err != nil {
			return info{}, fmt.Errorf("node %s: %v", c, err)
		}
		m, err := parseUMsg(data)
		if err != nil {
			return info{}, fmt.Errorf("node %s: unixfs data: %v", c, err)
		}
		if m.Type != uFile && m.Type != uRaw {
			return info{}, fmt.Errorf("node %s has type %d in a file", c, m.Type)
		}
		if m.Filesize == nil {
			return info{}, fmt.Errorf("node %s has no file size", c)
		}
		in := info{uint64(len(m.Data)), uint64(len(raw))}
		if len(links) == 0 {
			res.leaves++
			res.leafCid = append(res.leafCid, c)
		}
		if len(links) > 0 && len(m.Data) > 0 {
			return info{}, fmt.Errorf("inner node %s carries %d bytes of inline data which readers ignore", c, len(m.Data))
		}
		res.content = append(res.content, m.Data...)
		if len(m.Blocksizes) != len(links) {
			return info{}, fmt.Errorf("node %s has %d links but %d child sizes", c, len(links), len(m.Blocksizes))
		}
		for i, l := range links {
			ci, err := walk(l.Cid, depth+1)
			if err != nil {
				return info{}, err
			}
			if ci.fsize != m.Blocksizes[i] {
				return info{}, fmt.Errorf("node %s: child %d holds %d bytes but is recorded with size %d", c, i, ci.fsize, m.Blocksizes[i])
			}
			if ci.tsize != l.Tsize {
				return info{}, fmt.Errorf("node %s: link %d has cumulative size %d, actual %d", c, i, l.Tsize, ci.tsize)
			}
			if l.Name != "" {
				return info{}, fmt.Errorf("node %s: link %d is named %q", c, i, l.Name)
			}
			in.fsize += ci.fsize
			in.tsize += ci.tsize
		}
		if *m.Filesize != in.fsize {
			return info{}, fmt.Errorf("node %s (depth %d) records file size %d, content below is %d bytes", c, depth, *m.Filesize, in.fsize)
		}
		return in, nil
	}
	if _, err := walk(root, 0); err != nil {
		return res, err
	}
	return res, nil
}

func (m *memDAG) audit(root cid.Cid) (*auditResult, error) { return auditFile(m.block, root) }

// hand-built file DAGs ---------------------------------------------------------

// buildManual stores an arbitrary well-formed file DAG holding data: mixed
// leaf kinds, uneven depth, empty leaves.
func buildManual(r *Rng, m *memDAG, data []byte, b bspec) (ipld.Node, error) {
	add := func(n ipld.Node) (ipld.Node, error) { return n, m.Add(context.Background(), n) }
	var rec func(d []byte, depth int) (ipld.Node, uint64, error)
	rec = func(d []byte, depth int) (ipld.Node, uint64, error) {
		if depth == 0 || len(d) <= 3 || r.Chance(0.25) {
			switch r.Intn(3) {
			case 0:
				var n *mdag.RawNode
				var err error
				if b.b == nil {
					n = mdag.NewRawNode(d)
				} else if n, err = mdag.NewRawNodeWPrefix(d, b.b); err != nil {
					return nil, 0, err
				}
				x, err := add(n)
				return x, uint64(len(d)), err
			case 1:
				n := mdag.NodeWithData(ft.WrapData(d))
				n.SetCidBuilder(b.b)
				x, err := add(n)
				return x, uint64(len(d)), err
			default:
				n := mdag.NodeWithData(ft.FilePBData(d, uint64(len(d))))
				n.SetCidBuilder(b.b)
				x, err := add(n)
				return x, uint64(len(d)), err
			}
		}
		fs := ft.NewFSNode(ft.TFile)
		n := new(mdag.ProtoNode)
		n.SetCidBuilder(b.b)
		k := r.Range(1, 5)
		for i := 0; i < k; i++ {
			sz := len(d)
			if i < k-1 {
				sz = r.Intn(len(d) + 1)
				if r.Chance(0.08) {
					sz = 0
				}
			}
			c, cs, err := rec(d[:sz], depth-1)
			if err != nil {
				return nil, 0, err
			}
			if err := n.AddNodeLink("", c); err != nil {
				return nil, 0, err
			}
			fs.AddBlockSize(cs)
			d = d[sz:]
		}
		bs, err := fs.GetBytes()
		if err != nil {
			return nil, 0, err
		}
		n.SetData(bs)
		x, err := add(n)
		return x, fs.FileSize(), err
	}
	n, _, err := rec(data, r.Range(1, 4))
	return n, err
}

func bytesKey(b []byte) string { return fmt.Sprintf("%d:%x", len(b), hash64(string(b))) }

// diffBytes describes the first difference of two byte strings.
func diffBytes(got, want []byte) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("lengths %d (want %d), first difference at byte %d", len(got), len(want), i)
		}
	}
	return fmt.Sprintf("length %d, want %d", len(got), len(want))
}
