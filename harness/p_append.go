package main

import (
	"bytes"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	mh "github.com/multiformats/go-multihash"
)

func init() {
	register(&Prop{
		ID: "C06", Quick: 10000, Thorough: 144000,
		Rule:        "a case builds a base (trickle import, inline leaf, raw leaf, balanced import or arbitrary file DAG) and appends 1..6 generated streams to it, auditing content, sizes, structure and (trickle bases) the exact reference layout after every step; non-trivial = at least one non-empty append, keyed by final root",
		Assumptions: []string{"maxlinks >= 2; trickle bases are appended with the link count they were built with"},
		Required:    []string{"appends", "deep_appends", "inline_bases", "raw_bases", "foreign_bases", "empty_appends", "layout_matches"},
		Run:         runC06,
	})
}

func (s impSpec) appendBytes(ds ipld.DAGService, base ipld.Node, d []byte) (ipld.Node, error) {
	p := s.params(ds)
	db, err := p.New(s.ch.splitter(bytes.NewReader(d)))
	if err != nil {
		return nil, err
	}
	return trickle.Append(bg, base, db)
}

// refTrickleCheck decides by itself whether the stored DAG is a trickle
// layout with the given parameters.
func refTrickleCheck(get func(cid.Cid) ([]byte, bool), root cid.Cid, direct, repeat int, raw bool, prefix *cid.Prefix) error {
	var rec func(c cid.Cid, depth int) error
	rec = func(c cid.Cid, depth int) error {
		b, ok := get(c)
		if !ok {
			return fmt.Errorf("block %s missing", c)
		}
		isRaw := c.Prefix().Codec == cid.Raw
		if prefix != nil {
			p := c.Prefix()
			want := *prefix
			want.Codec = cid.DagProtobuf
			if isRaw {
				want.Codec = cid.Raw
				if want.Version == 0 {
					want.Version = 1
				}
			}
			if want.MhLength == -1 {
				want.MhLength = p.MhLength
			}
			if p != want {
				return fmt.Errorf("node %s has prefix %v, want %v", c, p, want)
			}
		}
		if depth == 0 {
			if isRaw != raw {
				return fmt.Errorf("leaf %s has the wrong format", c)
			}
			if raw {
				return nil
			}
		} else if isRaw {
			return fmt.Errorf("branch %s is a raw block", c)
		}
		links, data, err := parseDagPB(b)
		if err != nil {
			return err
		}
		m, err := parseUMsg(data)
		if err != nil {
			return err
		}
		if depth == 0 {
			if len(links) > 0 {
				return fmt.Errorf("leaf %s has links", c)
			}
			if m.Type != uRaw {
				return fmt.Errorf("leaf %s has type %d", c, m.Type)
			}
			return nil
		}
		if m.Type != uFile {
			return fmt.Errorf("branch %s has type %d", c, m.Type)
		}
		if len(m.Data) > 0 {
			return fmt.Errorf("branch %s carries data", c)
		}
		for i, l := range links {
			d := 0
			if i >= direct {
				d = (i-direct)/repeat + 1
				if depth > 0 && d >= depth {
					return fmt.Errorf("node %s: child %d is deeper than its position allows", c, i)
				}
			}
			if err := rec(l.Cid, d); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(root, -1)
}

// prefix returns the prefix of all the builder's CIDs, nil if there is none.
func (s bspec) prefix() *cid.Prefix {
	if _, ok := s.b.(inlineBuilder); ok {
		return nil
	}
	p := s.pb([]byte("x")).Prefix()
	if p.MhType == mh.IDENTITY {
		p.MhLength = -1
	}
	return &p
}

func runC06(c *Case) {
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	s := genImp(c.R)
	s.trickle = true
	s.maxlinks = pick(c.R, 2, 2, 3, 4, 5, 8, 30, 174)
	kind := c.R.Intn(8)
	var base ipld.Node
	var content []byte
	var chunks [][]byte
	var err error
	isTrickle := false
	switch {
	case kind < 4:
		n := s.genLen(c.R, 300)
		if c.R.Chance(0.2) {
			n = 0
		}
		content = genData(c.R, n)
		base, err = s.importBytes(m, content)
		c.Must(err, "import")
		chunks = s.ch.split(content)
		isTrickle = true
		c.Logf("base: %s, %d bytes", s, n)
	case kind == 4:
		content = c.R.Bytes(c.R.Intn(120))
		var pn *mdag.ProtoNode
		if c.R.Chance(0.5) {
			pn = mdag.NodeWithData(ft.FilePBData(content, uint64(len(content))))
		} else {
			pn = mdag.NodeWithData(ft.WrapData(content))
		}
		pn.SetCidBuilder(s.b.b)
		base = pn
		c.Must(m.Add(bg, base), "add")
		c.Count("inline_bases", 1)
		c.Logf("base: inline leaf, %d bytes; append %s", len(content), s)
	case kind == 5:
		content = c.R.Bytes(c.R.Intn(120))
		if s.b.b == nil {
			base = mdag.NewRawNode(content)
		} else {
			base, err = mdag.NewRawNodeWPrefix(content, s.b.b)
			c.Must(err, "rawnode")
		}
		c.Must(m.Add(bg, base), "add")
		c.Count("raw_bases", 1)
		c.Logf("base: raw leaf, %d bytes; append %s", len(content), s)
	case kind == 6:
		o := genImp(c.R)
		o.trickle = c.R.Chance(0.3) // trickle with another link count
		content = genData(c.R, o.genLen(c.R, 200))
		base, err = o.importBytes(m, content)
		c.Must(err, "import")
		c.Count("foreign_bases", 1)
		c.Logf("base: %s, %d bytes; append %s", o, len(content), s)
	default:
		content = c.R.Bytes(c.R.Intn(2000))
		base, err = buildManual(c.R, m, content, s.b)
		c.Must(err, "build")
		c.Count("foreign_bases", 1)
		c.Logf("base: manual, %d bytes; append %s", len(content), s)
	}
	nonEmpty := 0
	for k := c.R.Range(1, 6); k > 0; k-- {
		if c.R.Chance(0.5) {
			base, err = m.Get(bg, base.Cid())
			c.Must(err, "base-stored")
		}
		s.ch = genChunks(c.R)
		n := 0
		if !c.R.Chance(0.1) {
			n = s.genLen(c.R, 120)
		}
		if k, ok := s.realChunks(c.R, 0.003); ok && len(content) < 4<<20 {
			n = k
			c.Count("real_chunk_sizes", 1)
		}
		d := genData(c.R, n)
		c.Logf("append %d bytes in chunks of %s", n, s.ch)
		nd, err := s.appendBytes(m, base, d)
		c.Must(err, "append")
		c.Must(m.Add(bg, nd), "add")
		content = append(append([]byte(nil), content...), d...)
		a, err := m.audit(nd.Cid())
		c.Must(err, "audit")
		c.Check(bytes.Equal(a.content, content), "content", "after appending %d bytes: %s", n, diffBytes(a.content, content))
		if n == 0 {
			c.Count("empty_appends", 1)
		} else {
			c.Count("appends", 1)
			nonEmpty++
		}
		if isTrickle {
			chunks = append(chunks, s.ch.split(d)...)
			ri := &refImporter{chunks: chunks, maxlinks: s.maxlinks, rawLeaf: s.raw, b: s.b}
			ref := ri.trickle()
			err := refTrickleCheck(m.block, nd.Cid(), s.maxlinks, 4, s.raw, s.b.prefix())
			c.Must(err, "structure")
			err = trickle.VerifyTrickleDagStructure(nd, trickle.VerifyParams{Getter: m, Direct: s.maxlinks, LayerRepeat: 4, Prefix: s.b.prefix(), RawLeaves: s.raw})
			c.Must(err, "verifier")
			c.Check(ref.c.Equals(nd.Cid()), "layout", "appended root %s, the trickle layout of the same chunks is %s", nd.Cid(), ref.c)
			c.Count("layout_matches", 1)
			if a.depth > 3 {
				c.Count("deep_appends", 1)
			}
			c.Max("depth", a.depth)
		}
		if c.R.Chance(0.3) {
			dr, err := uio.NewDagReader(bg, nd, m)
			c.Must(err, "reader")
			got, err := io.ReadAll(dr)
			c.Must(err, "readall")
			c.Check(bytes.Equal(got, content), "readback", "reader: %s", diffBytes(got, content))
		}
		base = nd
	}
	m.checkIntegrity(c)
	key := ""
	if nonEmpty > 0 {
		key = base.Cid().String()
	}
	c.Eval(key)
	c.Sample(fmt.Sprint(c.trace))
}
