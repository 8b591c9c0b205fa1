package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"runtime/metrics"
	"strings"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	mh "github.com/multiformats/go-multihash"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 90000, Thorough: 1619999, Leak: false,
		Rule:        "a case stores a valid file, directory, shard, symlink, metadata node or a random tree, corrupts 1..4 places (bytes, unixfs fields, links, names, bitfields, block kinds) and drives one component (decoders, reader, directory, shard, modifier, append, verifier, resolver, file tree) over it under monitors for panics, deadlock, CPU time, and allocation; keyed by component and corrupted root",
		Assumptions: []string{"stored blocks match their CIDs", "per-operation allocation bound: 64 MB + 5000 x stored bytes", "trees whose expansion through repeated links is exponential are excluded"},
		Required: []string{"op_decode", "op_reader", "op_directory", "op_shard", "op_modifier", "op_append", "op_verify", "op_resolve", "op_tree",
			"results", "errors", "mut_bytes", "mut_field", "mut_link", "mut_name", "mut_kind", "mut_foreign", "mut_random"},
		Run: runC20,
	})
}

// hnode is an editable block.
type hnode struct {
	raw   []byte // a raw leaf, or the whole block when set on a dag-pb node
	isRaw bool
	other bool   // a block of another format, with these links
	data  []byte // dag-pb data
	links []hlink
	b     bspec
	drop  bool
	ident bool // use an identity CID
}

type hlink struct {
	name  string
	tsize uint64
	to    *hnode
	cid   *cid.Cid // instead of to
}

func loadAny(m *memDAG, c cid.Cid, b bspec, all *[]*hnode, budget *int) *hnode {
	*budget--
	raw, ok := m.block(c)
	if !ok {
		panic("zverif: block missing")
	}
	n := &hnode{b: b}
	*all = append(*all, n)
	if c.Prefix().Codec == cid.Raw {
		n.raw, n.isRaw = raw, true
		return n
	}
	if c.Prefix().Codec == foreignCodec {
		n.other, n.data = true, raw[1:] // directories' entries have no links
		return n
	}
	links, data, err := parseDagPB(raw)
	if err != nil {
		panic(err)
	}
	n.data = append([]byte(nil), data...)
	for _, l := range links {
		hl := hlink{name: l.Name, tsize: l.Tsize}
		if _, ok := m.block(l.Cid); !ok || *budget <= 0 {
			k := l.Cid
			hl.cid = &k
		} else {
			hl.to = loadAny(m, l.Cid, b, all, budget)
		}
		n.links = append(n.links, hl)
	}
	return n
}

func (n *hnode) store(m *memDAG, depth int) cid.Cid {
	if n.other {
		var ks []cid.Cid
		for _, l := range n.links {
			switch {
			case l.cid != nil:
				ks = append(ks, *l.cid)
			case depth <= 12:
				ks = append(ks, l.to.store(m, depth+1))
			}
		}
		fits := ks[:0]
		for _, k := range ks {
			if k.Defined() && k.ByteLen() < 256 && len(fits) < 200 {
				fits = append(fits, k)
			}
		}
		nd := newForeign(n.data, fits...)
		if !n.drop {
			m.put(nd.Cid(), nd.RawData())
		}
		return nd.Cid()
	}
	if n.isRaw {
		c := n.b.raw(n.raw)
		if !n.drop {
			m.put(c, n.raw)
		}
		return c
	}
	raw := n.raw
	if raw == nil {
		var b []byte
		for _, l := range n.links { // unsorted on purpose
			var k cid.Cid
			switch {
			case l.cid != nil:
				k = *l.cid
			case depth > 12:
				k = bspec{}.raw(nil)
			default:
				k = l.to.store(m, depth+1)
			}
			e := pbLen(nil, 1, k.Bytes())
			e = pbLen(e, 2, []byte(l.name))
			e = pbVar(e, 3, l.tsize)
			b = pbLen(b, 2, e)
		}
		if n.data != nil {
			b = pbLen(b, 1, n.data)
		}
		raw = b
	}
	c := n.b.pb(raw)
	if !n.drop {
		m.put(c, raw)
	}
	return c
}

func extreme(r *Rng) uint64 {
	return pick(r, 0, 1, 2, 3, 7, 8, 9, 16, 100, 255, 256, 257, 1024, 1<<16, 1<<20, 1<<31-1, 1<<31, 1<<32, 1<<40, math.MaxInt64, 1<<63, math.MaxUint64-1, math.MaxUint64, r.Uint64())
}

// extremeTsize rarely exceeds what the dag-pb encoder can write.
func extremeTsize(r *Rng) uint64 {
	v := extreme(r)
	if v > 1<<48 && !r.Chance(0.1) {
		v >>= 16
	}
	return v
}

func mutBytes(r *Rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := r.Range(1, 3); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 1:
			b = append(b, r.Bytes(r.Range(1, 9))...)
		case 2:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append(r.Bytes(r.Range(1, 3)), b[i:]...)...)
		default:
			if len(b) > 0 {
				b[r.Intn(len(b))] = pick(r, byte(0), 1, 0x7f, 0x80, 0xff, byte(r.Intn(256)))
			}
		}
	}
	return b
}

// corrupt edits one random place of the DAG.
func corrupt(c *Case, all []*hnode) string {
	r := c.R
	n := all[0]
	if r.Chance(0.6) {
		n = all[r.Intn(len(all))]
	}
	other := all[r.Intn(len(all))]
	kind := pick(r, "bytes", "field", "field", "field", "link", "link", "name", "name", "kind", "random")
	if n.isRaw && (kind == "field" || kind == "link" || kind == "name") {
		kind = pick(r, "bytes", "kind")
	}
	if (kind == "name") && len(n.links) == 0 {
		kind = "field"
	}
	switch kind {
	case "bytes":
		switch {
		case n.isRaw:
			n.raw = mutBytes(r, n.raw)
		case r.Chance(0.6):
			n.data = mutBytes(r, n.data)
		default:
			c := n.copyNoKids()
			t := newMemDAG()
			k := c.store(t, 0)
			b, _ := t.block(k)
			n.raw = mutBytes(r, b)
		}
	case "field":
		u, err := parseUMsg(n.data)
		if err != nil {
			u = &uMsg{Type: uint64(r.Intn(6))}
		}
		switch r.Intn(10) {
		case 0:
			u.Type = pick(r, uint64(0), 1, 2, 3, 4, 5, 6, 99, math.MaxUint64)
		case 1:
			u.Filesize = u64(extreme(r))
		case 2:
			u.Filesize = nil
		case 3:
			if len(u.Blocksizes) > 0 {
				u.Blocksizes[r.Intn(len(u.Blocksizes))] = extreme(r)
			} else {
				u.Blocksizes = []uint64{extreme(r)}
			}
		case 4:
			u.Blocksizes = append(u.Blocksizes, extreme(r))
		case 5:
			if len(u.Blocksizes) > 0 {
				u.Blocksizes = u.Blocksizes[:r.Intn(len(u.Blocksizes))]
			}
		case 6:
			u.Fanout = u64(extreme(r))
			if r.Chance(0.2) {
				u.Fanout = nil
			}
		case 7:
			u.HashType = u64(extreme(r))
			if r.Chance(0.2) {
				u.HashType = nil
			}
		default:
			switch r.Intn(4) {
			case 0:
				u.Data = nil
			case 1:
				u.Data = r.Bytes(pick(r, 1, 2, 31, 32, 33, 100, 5000))
			case 2:
				u.Data = bytes.Repeat([]byte{0xff}, pick(r, 1, 2, 32, 33, 1000))
			default:
				u.Data = mutBytes(r, u.Data)
			}
		}
		n.data = u.encode()
	case "link":
		switch r.Intn(7) {
		case 0:
			if len(n.links) > 0 {
				i := r.Intn(len(n.links))
				n.links = append(n.links[:i:i], n.links[i+1:]...)
			}
		case 1:
			n.links = nil
		case 2, 3: // to another kind of node (never to an ancestor: hashes)
			l := hlink{name: "", to: other.shallow()}
			if len(n.links) > 0 {
				i := r.Intn(len(n.links))
				l.name, l.tsize = n.links[i].name, n.links[i].tsize
				n.links[i] = l
			} else {
				n.links = append(n.links, l)
			}
		case 4:
			l := hlink{name: pick(r, "", "0", "00", "FFx", "zz"), tsize: extremeTsize(r), to: other.shallow()}
			i := r.Intn(len(n.links) + 1)
			n.links = append(n.links[:i:i], append([]hlink{l}, n.links[i:]...)...)
		case 5:
			if len(n.links) > 0 {
				n.links[r.Intn(len(n.links))].tsize = extremeTsize(r)
			}
		default:
			if len(n.links) > 0 {
				h, _ := mh.Sum(r.Bytes(r.Intn(30)), mh.IDENTITY, -1)
				k := cid.NewCidV1(pick(r, uint64(cid.Raw), cid.DagProtobuf, cid.DagCBOR, 0x129), h)
				n.links[r.Intn(len(n.links))].cid = &k
			}
		}
	case "name":
		i := r.Intn(len(n.links))
		s := n.links[i].name
		switch r.Intn(8) {
		case 0:
			s = ""
		case 1:
			if len(s) > 0 {
				s = s[:r.Intn(len(s))]
			}
		case 2:
			s = pick(r, "0", "7", "G", "ZZ", "00", "FF", "0F", "100", "FFF", "-1", "+1", "é", "\x00\x00") + s
		case 3:
			s = strings.ToLower(s)
		case 4:
			s = string(mutBytes(r, []byte(s)))
		case 5:
			s = n.links[r.Intn(len(n.links))].name
		case 6: // a sub-shard turned into a value or back
			if len(s) > 2 {
				s = s[:pick(r, 1, 2, 2, 3)]
			} else {
				s += "x"
			}
		default:
			r.Shuffle(len(n.links), func(i, j int) { n.links[i], n.links[j] = n.links[j], n.links[i] })
			return kind
		}
		n.links[i].name = s
	case "kind":
		switch {
		case r.Chance(0.25) && n != all[0]:
			n.drop = true
		case r.Chance(0.25):
			n.other, n.isRaw = true, false
			if r.Chance(0.3) {
				n.links = nil
			}
			c.Count("mut_foreign", 1)
		case n.isRaw:
			n.isRaw, n.data, n.raw = false, (&uMsg{Type: uint64(r.Intn(6)), Data: n.raw}).encode(), nil
			if r.Chance(0.3) {
				n.data = nil
			}
		default:
			u, err := parseUMsg(n.data)
			d := n.data
			if err == nil && r.Chance(0.5) {
				d = u.Data
			}
			n.isRaw, n.raw, n.links = true, d, nil
		}
	case "random":
		n.isRaw = false
		n.raw = nil
		n.links = nil
		for k := r.Intn(6); k > 0; k-- {
			n.links = append(n.links, hlink{name: pick(r, "", "a", "0", "00", "01x", "FFfile", "1", "7"), tsize: extremeTsize(r), to: all[r.Intn(len(all))].shallow()})
		}
		if r.Chance(0.3) {
			n.data = r.Bytes(r.Intn(30))
		} else {
			m := genMsg(r)
			if r.Chance(0.5) {
				m.Fanout = u64(pick(r, uint64(8), 16, 256))
				m.HashType = u64(0x22)
			}
			n.data = m.encode()
		}
	}
	return kind
}

func (n *hnode) copyNoKids() *hnode {
	o := *n
	o.links = append([]hlink(nil), n.links...)
	for i := range o.links {
		if o.links[i].cid == nil {
			k := bspec{}.raw([]byte(o.links[i].name))
			o.links[i].cid = &k
		}
	}
	return &o
}

// shallow is a copy that cannot make the DAG cyclic or explode: its own
// children become plain leaves.
func (n *hnode) shallow() *hnode {
	o := *n
	o.links = nil
	for i, l := range n.links {
		if i >= 40 {
			break
		}
		l.to, l.cid = &hnode{isRaw: true, raw: []byte{byte(i)}, b: n.b}, nil
		o.links = append(o.links, l)
	}
	o.drop = false
	return &o
}

type allocMeter struct {
	s    []metrics.Sample
	last uint64
}

func newMeter() *allocMeter {
	m := &allocMeter{s: []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}}
	m.take()
	return m
}

func (a *allocMeter) take() uint64 {
	metrics.Read(a.s)
	v := a.s[0].Value.Uint64()
	d := v - a.last
	a.last = v
	return d
}

// hostile carries one case's operations.
type hostile struct {
	c     *Case
	m     *memDAG
	meter *allocMeter
	bytes uint64
	op    string
}

// did records the outcome of one call and checks what it allocated.
func (x *hostile) did(what string, err error) {
	c := x.c
	a := x.meter.take()
	x.m.mu.Lock()
	var stored uint64
	for _, b := range x.m.blocks {
		stored += uint64(len(b))
	}
	x.m.mu.Unlock()
	c.Logf("%s: %v", what, err)
	c.Max("alloc_mb_per_op", int(a>>20))
	c.Check(a <= 64<<20+5000*stored, "alloc:"+x.op+":"+strings.Fields(what)[0], "%s allocated %d MB for a DAG of %d bytes", what, a>>20, stored)
	if err != nil {
		c.Count("errors", 1)
	} else {
		c.Count("results", 1)
	}
	x.meter.take()
}

func runC20(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	setLinksPerBlock(pick(r, 2, 3, 5, 8, 174))
	width := pick(r, 8, 8, 16, 64, 256)
	setShardWidth(width)
	setShardingSize(0)

	b := pick(r, builders...)
	var root cid.Cid
	what := pick(r, "file", "file", "file", "dir", "shard", "shard", "shard", "tree", "symlink", "metadata")
	var names []string
	switch what {
	case "file":
		nd, _, _ := startFile(c, m, b)
		root = nd.Cid()
	case "symlink":
		d, _ := ft.SymlinkData("target")
		nd := mdag.NodeWithData(d)
		c.Must(m.Add(bg, nd), "add")
		root = nd.Cid()
	case "metadata":
		nd, _, _ := startFile(c, m, b)
		root = wrapMetadata(c, m, nd).Cid()
	case "tree":
		root = genDirTree(c, m, 2, 8).nd.Cid()
	default:
		names = separable(genNames(r, r.Range(1, 40), width, false), width)
		nodes := genEntryNodes(c, m, 6)
		if what == "dir" {
			nd := ft.EmptyDirNode()
			nd.SetCidBuilder(b.b)
			for _, n := range names {
				c.Must(nd.AddNodeLink(n, nodes[r.Intn(len(nodes))]), "link")
			}
			c.Must(m.Add(bg, nd), "add")
			root = nd.Cid()
		} else {
			s, err := hamt.NewShard(m, width)
			c.Must(err, "shard")
			s.SetCidBuilder(b.b)
			for _, n := range names {
				c.Must(s.Set(bg, n, nodes[r.Intn(len(nodes))]), "set")
			}
			nd, err := s.Node()
			c.Must(err, "node")
			root = nd.Cid()
		}
	}
	var all []*hnode
	budget := 600
	t := loadAny(m, root, b, &all, &budget)
	muts := ""
	for k := r.Range(1, 4); k > 0; k-- {
		kind := corrupt(c, all)
		c.Count("mut_"+kind, 1)
		muts += kind + " "
	}
	root = t.store(m, 0)
	raw, _ := m.block(root)
	c.Logf("corrupted %s (%s) root %s: %x", what, muts, root, head(string(raw), 200))
	x := &hostile{c: c, m: m, meter: newMeter()}

	// the decoders take the block's data as it is
	if r.Chance(0.3) {
		x.op = "decode"
		d := all[r.Intn(len(all))].data
		x.decode(d)
	}
	nd, err := m.get(root)
	if err != nil {
		c.Count("undecodable_roots", 1)
		c.Eval("")
		return
	}
	ops := []string{"reader", "directory", "shard", "modifier", "append", "verify", "resolve", "tree"}
	switch what {
	case "file", "metadata":
		ops = append(ops, "reader", "modifier", "modifier", "append", "verify")
	case "dir", "shard":
		ops = append(ops, "directory", "directory", "shard", "shard", "resolve", "tree")
	}
	if len(names) == 0 {
		names = []string{"a"}
	}
	for _, op := range []string{pick(r, ops...), pick(r, ops...)} {
		x.op = op
		c.Logf("-- %s", op)
		c.Count("op_"+op, 1)
		switch op {
		case "reader":
			x.reader(nd)
		case "directory":
			x.directory(nd, names)
		case "shard":
			x.shard(nd, names)
		case "modifier":
			x.modifier(nd, b)
		case "append":
			if pn, ok := nd.(*mdag.ProtoNode); ok {
				x.append(pn.Copy())
			} else {
				x.append(nd)
			}
		case "verify":
			p := trickle.VerifyParams{Getter: m, Direct: pick(r, 1, 2, 3, 5, 174), LayerRepeat: 4, RawLeaves: r.Chance(0.5)}
			if r.Chance(0.5) {
				p.Prefix = b.prefix()
			}
			x.did("VerifyTrickleDagStructure", trickle.VerifyTrickleDagStructure(nd, p))
		case "resolve":
			for i := 0; i < 5; i++ {
				p := [][]string{{}, {""}, {r.pickStr(names)}, {r.pickStr(names), "b"}, {"0"}, {"Links", "0"}, {"\x00"}}[r.Intn(7)]
				_, _, err := uio.ResolveUnixfsOnce(bg, m, nd, p)
				x.did("ResolveUnixfsOnce", err)
			}
		case "tree":
			x.tree(nd)
		}
		c.Eval(op + root.String())
	}
	m.checkIntegrity(c)
	c.Sample(fmt.Sprintf("%s corrupted by %s: %v", what, muts, c.trace[max(0, len(c.trace)-4):]))
}

func (x *hostile) decode(d []byte) {
	x.c.Count("op_decode", 1)
	n, err := ft.FSNodeFromBytes(d)
	x.did("FSNodeFromBytes", err)
	if err == nil {
		n.FileSize()
		n.NumChildren()
		n.BlockSizes()
		n.IsDir()
		_, err = n.GetBytes()
		x.did("GetBytes", err)
		n.AddBlockSize(5)
		n.RemoveBlockSize(n.NumChildren() - 1)
		n.SetData([]byte("abc"))
		n.RemoveAllBlockSizes()
	}
	_, err = ft.FromBytes(d)
	x.did("FromBytes", err)
	_, err = ft.UnwrapData(d)
	x.did("UnwrapData", err)
	_, err = ft.DataSize(d)
	x.did("DataSize", err)
	_, err = ft.MetadataFromBytes(d)
	x.did("MetadataFromBytes", err)
	nd := mdag.NodeWithData(d)
	_, err = ft.ReadUnixFSNodeData(nd)
	x.did("ReadUnixFSNodeData", err)
	_, err = ft.ExtractFSNode(nd)
	x.did("ExtractFSNode", err)
}

func (x *hostile) off(size uint64) int64 {
	r := x.c.R
	switch r.Intn(6) {
	case 0:
		return int64(size)
	case 1:
		return int64(size) - int64(r.Intn(20))
	case 2:
		return int64(extreme(r))
	}
	return int64(r.Intn(6000))
}

func (x *hostile) reader(nd ipld.Node) {
	r := x.c.R
	dr, err := uio.NewDagReader(bg, nd, x.m)
	x.did("NewDagReader", err)
	if err != nil {
		return
	}
	for k := r.Range(2, 8); k > 0; k-- {
		switch r.Intn(6) {
		case 0:
			_, err = dr.Seek(x.off(dr.Size()), r.Intn(4))
			x.did("Seek", err)
		case 1:
			_, err = dr.WriteTo(io.Discard)
			x.did("WriteTo", err)
		case 2:
			_, err = dr.CtxReadFull(bg, make([]byte, r.Intn(3000)))
			x.did("CtxReadFull", err)
		case 3:
			_, err = dr.Seek(int64(r.Intn(3000)), io.SeekStart)
			x.did("Seek", err)
		default:
			n, err := dr.Read(make([]byte, r.Intn(3000)))
			x.did(fmt.Sprintf("Read = %d", n), err)
		}
	}
	x.did("Close", dr.Close())
}

func (x *hostile) name(names []string) string {
	r := x.c.R
	if r.Chance(0.7) {
		return r.pickStr(names)
	}
	return pick(r, "a", "0", "00", "FF", "x", "file", nameWithHash(r.Uint64(), r.Uint64()))
}

func (x *hostile) directory(nd ipld.Node, names []string) {
	r := x.c.R
	setShardingSize(pick(r, 0, 0, 1, 100, 500, 100000))
	d, err := uio.NewDirectoryFromNode(x.m, nd)
	x.did("NewDirectoryFromNode", err)
	if err != nil {
		return
	}
	if r.Chance(0.1) {
		d.SetCidBuilder(pick(r, builders...).b)
	}
	entry := mdag.NodeWithData(ft.FilePBData([]byte("new"), 3))
	for k := r.Range(2, 8); k > 0; k-- {
		ctx, cancel := context.WithCancel(bg)
		switch r.Intn(8) {
		case 0:
			_, err = d.Find(ctx, x.name(names))
			x.did("Find", err)
		case 1, 2:
			x.did("AddChild", d.AddChild(ctx, x.name(names), entry))
		case 3, 4:
			x.did("RemoveChild", d.RemoveChild(ctx, x.name(names)))
		case 5:
			nd, err := d.GetNode()
			x.did("GetNode", err)
			if err == nil {
				_ = nd.Cid()
				_, err = nd.Size()
				x.did("Size", err)
			}
		default:
			_, _, err := listVia(ctx, d, r.Intn(3))
			x.did("list", err)
		}
		cancel()
	}
	d.GetCidBuilder()
}

func (x *hostile) shard(nd ipld.Node, names []string) {
	r := x.c.R
	s, err := hamt.NewHamtFromDag(x.m, nd)
	x.did("NewHamtFromDag", err)
	if err != nil {
		return
	}
	entry := mdag.NodeWithData(ft.FilePBData([]byte("new"), 3))
	for k := r.Range(2, 8); k > 0; k-- {
		n := x.name(names)
		switch r.Intn(9) {
		case 0:
			_, err = s.Find(bg, n)
			x.did("Find", err)
		case 1:
			x.did("Set", s.Set(bg, n, entry))
		case 2:
			_, err = s.Swap(bg, n, entry)
			x.did("Swap", err)
		case 3:
			x.did("Remove", s.Remove(bg, n))
		case 4:
			_, err = s.Take(bg, n)
			x.did("Take", err)
		case 5:
			nd, err := s.Node()
			x.did("Node", err)
			if err == nil {
				_ = nd.Cid()
			}
		case 6:
			_, err = s.Link()
			x.did("Link", err)
		default:
			_, _, err := shardListVia(bg, s, r.Intn(3))
			x.did("list", err)
		}
	}
}

func (x *hostile) modifier(nd ipld.Node, b bspec) {
	r := x.c.R
	ch := chunkSpec{size: pick(r, 16, 64, 256)}
	dm, err := mod.NewDagModifier(bg, nd, x.m, ch.gen())
	x.did("NewDagModifier", err)
	if err != nil {
		return
	}
	if p := b.prefix(); p != nil && r.Chance(0.3) {
		dm.Prefix = *p
		dm.RawLeaves = r.Chance(0.5)
	}
	// Extending a file writes zeros up to the new end, so offsets stay near
	// the size the file claims.
	near := func() int64 {
		s, err := dm.Size()
		if err != nil || s < 0 || s > 1<<20 || r.Chance(0.6) {
			return int64(r.Intn(4000))
		}
		return max(0, s+int64(r.Range(-100, 1000)))
	}
	for k := r.Range(2, 8); k > 0; k-- {
		switch r.Intn(9) {
		case 0:
			_, err = dm.Write(r.Bytes(r.Range(1, 200)))
			x.did("Write", err)
		case 1:
			_, err = dm.WriteAt(r.Bytes(r.Range(1, 200)), near())
			x.did("WriteAt", err)
		case 2:
			_, err = dm.Read(make([]byte, r.Intn(2000)))
			x.did("Read", err)
		case 3:
			_, err = dm.Seek(near(), io.SeekStart)
			x.did("Seek", err)
		case 4, 5:
			x.did("Truncate", dm.Truncate(near()))
		case 6:
			x.did("Sync", dm.Sync())
		case 7:
			_, err = dm.Size()
			x.did("Size", err)
		default:
			n, err := dm.GetNode()
			x.did("GetNode", err)
			if err == nil {
				_ = n.Cid()
			}
		}
	}
}

func (x *hostile) append(nd ipld.Node) {
	r := x.c.R
	s := genImp(r)
	s.maxlinks = pick(r, 2, 3, 5, 8, 174)
	s.ch = chunkSpec{size: 16}
	_, err := s.appendBytes(x.m, nd, r.Bytes(r.Intn(800)))
	x.did("Append", err)
}

func (x *hostile) tree(nd ipld.Node) {
	left := 300
	var walk func(f files.Node, depth int) error
	walk = func(f files.Node, depth int) error {
		left--
		if left < 0 || depth > 12 {
			return nil
		}
		switch f := f.(type) {
		case *files.Symlink:
			_, err := f.Size()
			return err
		case files.Directory:
			if _, err := f.Size(); err != nil {
				_ = err
			}
			it := f.Entries()
			for it.Next() {
				it.Name()
				if it.Node() == nil {
					x.c.Fail("nil-node", "an iterator advanced to entry %q without a node", it.Name())
				}
				if err := walk(it.Node(), depth+1); err != nil {
					x.did("entry", err)
				}
				if left < 0 {
					return nil
				}
			}
			return it.Err()
		case files.File:
			_, err := io.Copy(io.Discard, f)
			if err == nil {
				_, err = f.Seek(x.off(100), io.SeekStart)
			}
			return err
		}
		return nil
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	f, err := unixfile.NewUnixfsFile(ctx, x.m, nd)
	x.did("NewUnixfsFile", err)
	if err == nil {
		x.did("walk", walk(f, 0))
		f.Close()
	}
}
