package main

import (
	"bytes"
	"fmt"
	"io"

	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"
)

func init() {
	register(&Prop{
		ID: "C30", Quick: 60000, Thorough: 1000000,
		Rule:        "a case drives one builder helper over a generated chunking (possibly with a failing splitter) by a random history of Done, Next, NewLeafDataNode and FillNodeLayer, assembles a random layout of the nodes, and compares every call with a model of the chunk cursor and the finished file with the stream; non-trivial = at least two chunks, keyed by configuration and history",
		Assumptions: []string{"a splitter that has ended stays so; one that failed may go on failing or end; chunks are not empty"},
		Required:    []string{"done", "next", "leaf", "layer", "layer_full", "layer_short", "errors", "after_error", "ends", "layouts", "reopened"},
		Run:         runC30,
	})
}

// countSplitter counts the chunks taken, and fails after a number of them.
type countSplitter struct {
	chunks [][]byte
	taken  int
	fail   int // -1: never
	err    error
	once   bool // go on to the end after reporting the failure once
	r      io.Reader
}

func (s *countSplitter) Reader() io.Reader { return s.r }
func (s *countSplitter) NextBytes() ([]byte, error) {
	if s.taken == s.fail {
		if s.once {
			s.fail, s.taken = -1, len(s.chunks)
		}
		return nil, s.err
	}
	if s.taken == len(s.chunks) {
		return nil, io.EOF
	}
	s.taken++
	return append([]byte(nil), s.chunks[s.taken-1]...), nil
}

func runC30(c *Case) {
	r := c.R
	s := genImp(r)
	d := genData(r, s.genLen(r, 60))
	chunks := s.ch.split(d)
	m := newMemDAG()
	sp := &countSplitter{chunks: chunks, fail: -1, r: bytes.NewReader(nil)}
	if r.Chance(0.3) {
		sp.fail = r.Intn(len(chunks) + 1)
		sp.err = genStoreFault(c, r)
		sp.once = r.Chance(0.4)
	}
	p := s.params(m)
	db, err := p.New(sp)
	c.Must(err, "newhelper")
	c.Check(db.Maxlinks() == s.maxlinks, "maxlinks", "Maxlinks %d, want %d", db.Maxlinks(), s.maxlinks)
	c.Check(db.GetDagServ() == ipld.DAGService(m), "dagserv", "another DAG service")
	c.Check(db.GetCidBuilder() == s.b.b, "builder", "another CID builder")
	c.Logf("%s: %d chunks, fails at %d (%v)", s, len(chunks), sp.fail, sp.err)

	pos := 0 // the model's cursor
	fail := sp.fail
	failing := func() bool { return fail >= 0 && pos >= fail }
	ended := func() bool { return !failing() && pos == len(chunks) }
	isErr := func(err error, what string) {
		c.Check(err != nil, "error-lost:"+what, "%s at the chunk the splitter failed at reports no error", what)
		c.Check(err == sp.err || errorsIs(err, sp.err), "other-error:"+what, "%s reports %v, not %v", what, err, sp.err)
		c.Count("errors", 1)
	}
	ahead := func(what string) {
		c.Check(sp.taken <= pos+1 || fail >= 0 && sp.fail < 0, "ahead:"+what, "after %s %d chunks are taken from the splitter, %d handed out", what, sp.taken, pos)
	}
	type built struct {
		n    ipld.Node
		data []byte
	}
	var parts []built
	types := []pb.Data_DataType{ft.TFile, ft.TRaw}
	leafIs := func(nd ipld.Node, data []byte, typ pb.Data_DataType, what string) {
		switch nd := nd.(type) {
		case *mdag.RawNode:
			c.Check(s.raw, "leaf-format:"+what, "a raw leaf, want protobuf")
			c.Check(bytes.Equal(nd.RawData(), data), "leaf-data:"+what, "%s", diffBytes(nd.RawData(), data))
		case *mdag.ProtoNode:
			c.Check(!s.raw, "leaf-format:"+what, "a protobuf leaf, want raw")
			c.Check(len(nd.Links()) == 0, "leaf-links:"+what, "a leaf with links")
			u, err := parseUMsg(nd.Data())
			c.Must(err, "parse")
			c.Check(u.Type == uint64(typ) && bytes.Equal(u.Data, data) && u.Filesize != nil && *u.Filesize == uint64(len(data)) && len(u.Blocksizes) == 0,
				"leaf-data:"+what, "leaf of type %d, %d bytes of data, size %d; want type %d, %d bytes", u.Type, len(u.Data), val(u.Filesize), typ, len(data))
		default:
			c.Fail("leaf-format:"+what, "a leaf of type %T", nd)
		}
		if s.b.b != nil {
			want := s.b.pb(nil).Prefix()
			got := nd.Cid().Prefix()
			c.Check(got.MhType == want.MhType, "leaf-hash:"+what, "leaf with hash %d, want %d", got.MhType, want.MhType)
			if !s.raw {
				c.Check(got.Version == want.Version, "leaf-version:"+what, "leaf with CID version %d, want %d", got.Version, want.Version)
			}
		}
	}
	key := fmt.Sprint(s, len(d), fail)
	after := r.Range(1, 4)
	for i := 0; i < 400 && after > 0; i++ {
		if ended() || failing() {
			after--
		}
		switch op := r.Intn(8); {
		case op < 3:
			for k := r.Range(1, 3); k > 0; k-- {
				done := db.Done()
				c.Check(done == ended(), "done", "Done() = %v with %d of %d chunks handed out (splitter fails at %d)", done, pos, len(chunks), fail)
				ahead("Done")
				c.Count("done", 1)
			}
			key += "d"
		case op == 3:
			b, err := db.Next()
			key += "n"
			switch {
			case failing():
				isErr(err, "Next")
				c.Count("after_error", 1)
			case ended():
				c.Must(err, "next-at-end")
				c.Check(len(b) == 0, "next-at-end", "Next after the end gives %d bytes", len(b))
				c.Count("ends", 1)
			default:
				c.Must(err, "next")
				c.Check(bytes.Equal(b, chunks[pos]), "next", "chunk %d: %s", pos, diffBytes(b, chunks[pos]))
				typ := pick(r, types...)
				nd, err := db.NewLeafNode(b, typ)
				c.Must(err, "leafnode")
				leafIs(nd, chunks[pos], typ, "NewLeafNode")
				c.Must(db.Add(nd), "add")
				parts = append(parts, built{nd, chunks[pos]})
				pos++
				c.Count("next", 1)
			}
			ahead("Next")
		case op < 6:
			if ended() {
				continue
			}
			typ := pick(r, types...)
			nd, size, err := db.NewLeafDataNode(typ)
			key += "l"
			if failing() {
				isErr(err, "NewLeafDataNode")
				c.Count("after_error", 1)
				break
			}
			c.Must(err, "leafdata")
			c.Check(size == uint64(len(chunks[pos])), "leaf-size", "a leaf of %d bytes is reported to hold %d", len(chunks[pos]), size)
			leafIs(nd, chunks[pos], typ, "NewLeafDataNode")
			c.Must(db.Add(nd), "add")
			parts = append(parts, built{nd, chunks[pos]})
			pos++
			ahead("NewLeafDataNode")
			c.Count("leaf", 1)
		default:
			n := db.NewFSNodeOverDag(ft.TFile)
			var data []byte
			have := 0
			// It may begin with nodes made earlier.
			if r.Chance(0.5) {
				have = r.Intn(min(s.maxlinks+2, len(parts)) + 1)
			}
			for _, x := range parts[len(parts)-have:] {
				c.Must(n.AddChild(x.n, uint64(len(x.data)), db), "addchild")
				data = append(data, x.data...)
			}
			parts = parts[:len(parts)-have]
			if r.Chance(0.3) && have > 0 {
				nd, err := n.Commit()
				c.Must(err, "commit")
				n, err = db.NewFSNFromDag(nd.Copy().(*mdag.ProtoNode))
				c.Must(err, "fromdag")
				c.Count("reopened", 1)
			}
			start := n.NumChildren()
			err := db.FillNodeLayer(n)
			key += fmt.Sprintf("f%d", start)
			got := n.NumChildren() - start
			want := s.maxlinks - start
			avail := len(chunks) - pos
			if fail >= 0 {
				avail = fail - pos
			}
			if want < 0 {
				want = 0
			}
			wantErr := fail >= 0 && want > avail
			if want > avail {
				want = avail
				c.Count("layer_short", 1)
			} else {
				c.Count("layer_full", 1)
			}
			if wantErr {
				isErr(err, "FillNodeLayer")
			} else {
				c.Must(err, "layer")
			}
			c.Check(got == want, "layer", "a node with %d children got %d more, want %d (%d chunks left)", start, got, want, avail)
			for k := 0; k < got; k++ {
				data = append(data, chunks[pos]...)
				pos++
			}
			ahead("FillNodeLayer")
			if !wantErr && n.NumChildren() > 0 {
				nd, err := n.GetDagNode() // filling commits
				c.Must(err, "dagnode")
				c.Must(db.Add(nd), "add")
				c.Check(n.FileSize() == uint64(len(data)), "layer-size", "the filled node has size %d, want %d", n.FileSize(), len(data))
				a, err := m.audit(nd.Cid())
				c.Must(err, "layer-audit")
				c.Check(bytes.Equal(a.content, data), "layer-content", "%s", diffBytes(a.content, data))
				parts = append(parts, built{nd, data})
			}
			c.Count("layer", 1)
		}
	}
	// Leaves of data that is not a chunk.
	x := genData(r, pick(r, 0, 1, 100))
	typ := pick(r, types...)
	nd, err := db.NewLeafNode(x, typ)
	c.Must(err, "leafnode")
	leafIs(nd, x, typ, "NewLeafNode")
	// An arbitrary layout of what was built.
	if fail < 0 {
		n := db.NewFSNodeOverDag(ft.TFile)
		var data []byte
		for _, x := range parts {
			c.Must(n.AddChild(x.n, uint64(len(x.data)), db), "addchild")
			data = append(data, x.data...)
		}
		nd, err := n.Commit()
		c.Must(err, "commit")
		c.Must(db.Add(nd), "add")
		left := d[len(data):]
		if pos == len(chunks) {
			c.Check(len(left) == 0, "lost", "%d bytes of the stream are in no node", len(left))
		}
		c.Check(bytes.Equal(data, d[:len(data)]), "order", "%s", diffBytes(data, d[:len(data)]))
		back, err := m.get(nd.Cid())
		c.Must(err, "get")
		dr, err := uio.NewDagReader(bg, back, m)
		c.Must(err, "open")
		got, err := io.ReadAll(dr)
		c.Must(err, "read")
		c.Check(bytes.Equal(got, data), "content", "%s", diffBytes(got, data))
		c.Check(dr.Size() == uint64(len(data)), "size", "Size() = %d, want %d", dr.Size(), len(data))
		c.Count("layouts", 1)
	}
	if len(chunks) < 2 {
		key = ""
	}
	c.Eval(key)
	c.Sample(head(key, 300))
}
