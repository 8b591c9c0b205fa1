package main

import (
	"bytes"
	"fmt"
	"math"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	pb "github.com/ipfs/go-unixfs/pb"
)

func init() {
	register(&Prop{
		ID: "C18", Quick: 200000, Thorough: 4500000,
		Rule:        "a case generates one unixfs message (all types, field presence patterns and extreme values), checks the matching helper's bytes against the reference encoder and every decoder against the message, then decodes re-ordered, repeated, packed and unknown-field encodings of it and requires an error for every truncation inside a field, over-long varints, illegal wire types and a missing type; keyed by the encoded bytes",
		Assumptions: []string{"field values of the wrong wire type and enum values outside the schema are exercised only for not panicking (C20)"},
		Required:    []string{"encoded", "decoded_variants", "rejected", "metadata", "symlinks", "shards", "packed", "unknown_fields", "repeated_fields"},
		Run:         runC18,
	})
	register(&Prop{
		ID: "C19", Quick: 120000, Thorough: 2699999,
		Rule:        "a case applies up to 60 operations (set data, add/remove/clear child sizes, encode+decode, switch between node copies) to an FSNode or an FSNodeOverDag and compares every accessor and the encoded bytes with a model after each one; keyed by the operation history",
		Assumptions: []string{"sizes are compared modulo 2^64; FileSize is compared for file and raw nodes (for the other types the encoded field is)"},
		Required:    []string{"set_data", "add_size", "remove_size", "clear_sizes", "roundtrips", "over_dag", "huge_sizes", "failed_adds"},
		Run:         runC19,
	})
}

func genU64(r *Rng) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return uint64(r.Intn(1 << 20))
	case 2:
		return uint64(1) << uint(7*r.Range(1, 9))
	case 3:
		return uint64(1)<<uint(7*r.Range(1, 9)) - 1
	case 4:
		return math.MaxUint64 - uint64(r.Intn(3))
	}
	return r.Uint64()
}

func genFieldData(r *Rng) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return r.Bytes(pick(r, 127, 128, 129, 16383, 16384))
	}
	return r.Bytes(r.Intn(40))
}

func genMsg(r *Rng) *uMsg {
	m := &uMsg{Type: uint64(r.Intn(6)), Data: genFieldData(r)}
	if r.Chance(0.7) {
		m.Filesize = u64(genU64(r))
	}
	if r.Chance(0.5) {
		for i := r.Intn(6); i > 0; i-- {
			m.Blocksizes = append(m.Blocksizes, genU64(r))
		}
	}
	if r.Chance(0.4) {
		m.HashType = u64(genU64(r))
	}
	if r.Chance(0.4) {
		m.Fanout = u64(genU64(r))
	}
	return m
}

// fields encodes each field of m separately.
func (m *uMsg) fields() [][]byte {
	out := [][]byte{pbVar(nil, 1, m.Type)}
	if m.Data != nil {
		out = append(out, pbLen(nil, 2, m.Data))
	}
	if m.Filesize != nil {
		out = append(out, pbVar(nil, 3, *m.Filesize))
	}
	for _, s := range m.Blocksizes {
		out = append(out, pbVar(nil, 4, s))
	}
	if m.HashType != nil {
		out = append(out, pbVar(nil, 5, *m.HashType))
	}
	if m.Fanout != nil {
		out = append(out, pbVar(nil, 6, *m.Fanout))
	}
	return out
}

func (m *uMsg) size() (uint64, bool) {
	switch m.Type {
	case uFile, uRaw:
		if m.Filesize == nil {
			return 0, true
		}
		return *m.Filesize, true
	case uSymlink:
		return uint64(len(m.Data)), true
	}
	return 0, false
}

func val(p *uint64) uint64 {
	if p == nil {
		return 0
	}
	return *p
}

// checkDecoders runs every decoder of the library on b, which encodes m.
func checkDecoders(c *Case, how string, b []byte, m *uMsg, canonical bool) {
	orig := append([]byte(nil), b...)
	n, err := ft.FSNodeFromBytes(b)
	c.Must(err, how+":fsnode")
	bad := func(field string, got, want interface{}) {
		c.Fail(how+":"+field, "%s: %s is %v, want %v (message %x)", how, field, got, want, orig)
	}
	if uint64(n.Type()) != m.Type {
		bad("type", n.Type(), m.Type)
	}
	if !bytes.Equal(n.Data(), m.Data) {
		bad("data", n.Data(), m.Data)
	}
	if s, ok := m.size(); ok && n.FileSize() != s {
		bad("filesize", n.FileSize(), s)
	}
	if n.NumChildren() != len(m.Blocksizes) || len(n.BlockSizes()) != len(m.Blocksizes) {
		bad("children", n.NumChildren(), len(m.Blocksizes))
	}
	for i, s := range m.Blocksizes {
		if n.BlockSize(i) != s || n.BlockSizes()[i] != s {
			bad("blocksize", n.BlockSize(i), s)
		}
	}
	if n.HashType() != val(m.HashType) {
		bad("hashtype", n.HashType(), val(m.HashType))
	}
	if n.Fanout() != val(m.Fanout) {
		bad("fanout", n.Fanout(), val(m.Fanout))
	}
	if n.IsDir() != (m.Type == uDirectory || m.Type == uHAMT) {
		bad("isdir", n.IsDir(), m.Type)
	}
	if canonical {
		e, err := n.GetBytes()
		c.Must(err, how+":getbytes")
		if !bytes.Equal(e, m.encode()) {
			bad("reencoded", e, m.encode())
		}
	}
	p, err := ft.FromBytes(b)
	c.Must(err, how+":frombytes")
	if uint64(p.GetType()) != m.Type || !bytes.Equal(p.GetData(), m.Data) || p.GetFilesize() != val(m.Filesize) ||
		len(p.GetBlocksizes()) != len(m.Blocksizes) || p.GetHashType() != val(m.HashType) || p.GetFanout() != val(m.Fanout) {
		bad("frombytes", p.String(), fmt.Sprintf("%+v", *m))
	}
	d, err := ft.UnwrapData(b)
	c.Must(err, how+":unwrap")
	if !bytes.Equal(d, m.Data) {
		bad("unwrap", d, m.Data)
	}
	s, err := ft.DataSize(b)
	if ws, ok := m.size(); ok {
		c.Must(err, how+":datasize")
		if s != ws {
			bad("datasize", s, ws)
		}
	} else if err == nil {
		bad("datasize", s, "an error")
	}
	// node-level decoders
	nd := mdag.NodeWithData(b)
	fs, err := ft.ExtractFSNode(nd)
	c.Must(err, how+":extract")
	if uint64(fs.Type()) != m.Type || !bytes.Equal(fs.Data(), m.Data) {
		bad("extract", fs.Type(), m.Type)
	}
	d, err = ft.ReadUnixFSNodeData(nd)
	if m.Type == uFile || m.Type == uRaw {
		c.Must(err, how+":readnode")
		if !bytes.Equal(d, m.Data) {
			bad("readnode", d, m.Data)
		}
	} else if err == nil {
		bad("readnode", d, "an error")
	}
	md, err := ft.MetadataFromBytes(b)
	if m.Type == uMetadata {
		if mm, ok := parseMeta(m.Data); ok {
			c.Must(err, how+":metadata")
			if md.MimeType != mm || md.Size != val(m.Filesize) {
				bad("metadata", fmt.Sprintf("%+v", *md), fmt.Sprintf("%q %d", mm, val(m.Filesize)))
			}
		}
	} else if err == nil {
		bad("metadata", md, "an error")
	}
	if !bytes.Equal(b, orig) {
		bad("input", b, orig)
	}
	c.Count("decoded", 1)
}

// parseMeta decodes a Metadata message; ok is false when a decoder may
// refuse it.
func parseMeta(b []byte) (string, bool) {
	fs, err := parsePB(b)
	if err != nil {
		return "", false
	}
	s := ""
	for _, f := range fs {
		if f.num != 1 || f.wt != 2 {
			return "", false
		}
		s = string(f.d)
	}
	return s, true
}

func mustReject(c *Case, how string, b []byte) {
	rej := func(what string, err error) {
		c.Check(err != nil, "accepted:"+how+":"+what, "%s accepts a malformed message (%s): %x", what, how, b)
	}
	_, err := ft.FSNodeFromBytes(b)
	rej("FSNodeFromBytes", err)
	_, err = ft.FromBytes(b)
	rej("FromBytes", err)
	_, err = ft.UnwrapData(b)
	rej("UnwrapData", err)
	_, err = ft.DataSize(b)
	rej("DataSize", err)
	_, err = ft.MetadataFromBytes(b)
	rej("MetadataFromBytes", err)
	_, err = ft.ExtractFSNode(mdag.NodeWithData(b))
	rej("ExtractFSNode", err)
	_, err = ft.ReadUnixFSNodeData(mdag.NodeWithData(b))
	rej("ReadUnixFSNodeData", err)
	c.Count("rejected", 1)
}

func runC18(c *Case) {
	r := c.R
	same := func(what string, got []byte, m *uMsg) {
		w := m.encode()
		c.Check(bytes.Equal(got, w), "encode:"+what, "%s encodes %+v as %x, want %x", what, *m, got, w)
		c.Count("encoded", 1)
		checkDecoders(c, what, got, m, true)
	}
	d := genFieldData(r)
	keep := append([]byte(nil), d...)
	var m *uMsg
	switch r.Intn(8) {
	case 0:
		n := genU64(r)
		m = &uMsg{Type: uFile, Data: d, Filesize: u64(n)}
		same("FilePBData", ft.FilePBData(d, n), m)
	case 1:
		m = &uMsg{Type: uRaw, Data: d, Filesize: u64(uint64(len(d)))}
		same("WrapData", ft.WrapData(d), m)
	case 2:
		m = &uMsg{Type: uDirectory}
		same("FolderPBData", ft.FolderPBData(), m)
		same("EmptyDirNode", ft.EmptyDirNode().Data(), m)
		same("EmptyFileNode", ft.EmptyFileNode().Data(), &uMsg{Type: uFile, Filesize: u64(0)})
	case 3:
		if d == nil {
			d = []byte{}
		}
		m = &uMsg{Type: uSymlink, Data: d}
		b, err := ft.SymlinkData(string(d))
		c.Must(err, "symlink")
		same("SymlinkData", b, m)
		c.Count("symlinks", 1)
	case 4:
		f, ht := genU64(r), genU64(r)
		m = &uMsg{Type: uHAMT, Data: d, HashType: u64(ht), Fanout: u64(f)}
		b, err := ft.HAMTShardData(d, f, ht)
		c.Must(err, "hamt")
		same("HAMTShardData", b, m)
		c.Count("shards", 1)
	case 5:
		mime := pick(r, "", "text/plain", "image/jpeg", "application/\u00e9\u4e16", string(bytes.Repeat([]byte("x"), r.Intn(300))))
		md := &ft.Metadata{MimeType: mime, Size: genU64(r)}
		mb, err := md.Bytes()
		c.Must(err, "metadata-bytes")
		want := pbLen(nil, 1, []byte(mime))
		c.Check(bytes.Equal(mb, want), "encode:metadata-bytes", "%x, want %x", mb, want)
		m = &uMsg{Type: uMetadata, Data: want, Filesize: u64(md.Size)}
		b, err := ft.BytesForMetadata(md)
		c.Must(err, "metadata")
		same("BytesForMetadata", b, m)
		back, err := ft.MetadataFromBytes(b)
		c.Must(err, "metadata-back")
		c.Check(*back == *md, "metadata-roundtrip", "%+v came back as %+v", *md, *back)
		c.Count("metadata", 1)
	default:
		m = genMsg(r)
		if m.Type == uMetadata && r.Chance(0.8) {
			m.Data = pbLen(nil, 1, []byte("a/b"))
		}
		b := m.encode()
		checkDecoders(c, "decode", b, m, true)
	}
	c.Check(bytes.Equal(d, keep), "input", "an encoder changed its input")
	// raw nodes carry file data directly
	if r.Chance(0.1) {
		b, err := ft.ReadUnixFSNodeData(mdag.NewRawNode(d))
		c.Must(err, "readnode:raw")
		c.Check(bytes.Equal(b, d), "readnode:raw", "raw node data differs")
	}

	// the same message, encoded differently
	canon := m.encode()
	key := fmt.Sprintf("%x", canon)
	fs := m.fields()
	for i := 0; i < 2; i++ {
		v := append([][]byte(nil), fs...)
		how := "reordered"
		r.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
		// a repeated field keeps the order of its values
		v = stableField(v, 4, fs)
		clean := true
		if r.Chance(0.4) { // superseded values of single fields
			how += "+repeated"
			o := genMsg(r)
			var dup [][]byte
			for _, f := range o.fields() {
				n := int(f[0] >> 3)
				if n != 4 && hasField(v, n) && r.Chance(0.6) {
					dup = append(dup, f)
				}
			}
			v = append(dup, v...)
			c.Count("repeated_fields", len(dup))
		}
		if r.Chance(0.4) {
			how += "+unknown"
			clean = false
			for k := r.Range(1, 3); k > 0; k-- {
				at := r.Intn(len(v) + 1)
				n := pick(r, 7, 8, 15, 16, 2000, 1<<28)
				var f []byte
				switch r.Intn(5) {
				case 0:
					f = pbVar(nil, n, genU64(r))
				case 1:
					f = pbLen(nil, n, r.Bytes(r.Intn(20)))
				case 2:
					f = append(putUvarint(nil, uint64(n)<<3|1), r.Bytes(8)...)
				case 3:
					f = append(putUvarint(nil, uint64(n)<<3|5), r.Bytes(4)...)
				default:
					f = putUvarint(nil, uint64(n)<<3|3)
					f = append(f, pbVar(nil, 1, genU64(r))...)
					f = append(f, putUvarint(nil, uint64(n)<<3|4)...)
				}
				v = append(v[:at:at], append([][]byte{f}, v[at:]...)...)
				c.Count("unknown_fields", 1)
			}
		}
		if len(m.Blocksizes) > 1 && r.Chance(0.4) {
			how += "+packed"
			var w [][]byte
			var p []byte
			for _, f := range v {
				if f[0] == 4<<3 {
					p = append(p, f[1:]...)
				} else {
					w = append(w, f)
				}
			}
			v = append(w, pbLen(nil, 4, p))
			c.Count("packed", 1)
		}
		b := bytes.Join(v, nil)
		c.Logf("%s %x", how, b)
		checkDecoders(c, "variant", b, m, clean)
		c.Count("decoded_variants", 1)
		key += how
	}
	// malformed encodings
	off := 0
	for _, f := range fs {
		for _, k := range []int{1, len(f) - 1, r.Range(1, len(f))} {
			if k > 0 && k < len(f) {
				mustReject(c, "truncated", append([]byte(nil), canon[:off+k]...))
			}
		}
		off += len(f)
	}
	over := append([]byte{3 << 3}, bytes.Repeat([]byte{0xff}, r.Range(10, 12))...)
	mustReject(c, "varint", append(append([]byte(nil), canon...), append(over, 0)...))
	mustReject(c, "wiretype", append(append([]byte(nil), canon...), byte(pick(r, 7, 8)<<3|pick(r, 6, 7))))
	mustReject(c, "endgroup", append(append([]byte(nil), canon...), byte(7<<3|4)))
	mustReject(c, "length", append(append([]byte(nil), canon...), putUvarint([]byte{7<<3 | 2}, uint64(r.Range(1, 1<<30)))...))
	mustReject(c, "notype", bytes.Join(fs[1:], nil))
	if m.Type == uMetadata {
		b := (&uMsg{Type: uMetadata, Data: []byte{1<<3 | 2, 9, 'x'}}).encode()
		_, err := ft.MetadataFromBytes(b)
		c.Check(err != nil, "accepted:metadata", "malformed metadata accepted")
	}
	c.Eval(key)
	c.Sample(fmt.Sprintf("%+v = %x", *m, head(string(canon), 60)))
}

func hasField(v [][]byte, n int) bool {
	for _, f := range v {
		if int(f[0]>>3) == n {
			return true
		}
	}
	return false
}

// stableField puts the occurrences of a repeated field back in the order of
// orig.
func stableField(v [][]byte, n int, orig [][]byte) [][]byte {
	var in [][]byte
	for _, f := range orig {
		if int(f[0]>>3) == n {
			in = append(in, f)
		}
	}
	for i, f := range v {
		if int(f[0]>>3) == n {
			v[i] = in[0]
			in = in[1:]
		}
	}
	return v
}

// C19 -------------------------------------------------------------------

type fsModel struct {
	typ   pb.Data_DataType
	data  []byte
	sizes []uint64
}

func (m *fsModel) total() uint64 {
	t := uint64(len(m.data))
	for _, s := range m.sizes {
		t += s
	}
	return t
}

func (m *fsModel) clone() *fsModel {
	return &fsModel{m.typ, append([]byte(nil), m.data...), append([]uint64(nil), m.sizes...)}
}

func (m *fsModel) check(c *Case, n *ft.FSNode) []byte {
	if m.typ == ft.TFile || m.typ == ft.TRaw {
		c.Check(n.FileSize() == m.total(), "filesize", "FileSize %d, want %d (%d bytes of data, child sizes %v)", n.FileSize(), m.total(), len(m.data), m.sizes)
	}
	c.Check(n.Type() == m.typ, "type", "type %s", n.Type())
	c.Check(n.NumChildren() == len(m.sizes), "children", "%d children, want %d", n.NumChildren(), len(m.sizes))
	bs := n.BlockSizes()
	c.Check(len(bs) == len(m.sizes), "blocksizes", "%v, want %v", bs, m.sizes)
	for i, s := range m.sizes {
		c.Check(n.BlockSize(i) == s && bs[i] == s, "blocksize", "child %d has size %d (%d), want %d", i, n.BlockSize(i), bs[i], s)
	}
	c.Check(bytes.Equal(n.Data(), m.data), "data", "data differs")
	b, err := n.GetBytes()
	c.Must(err, "getbytes")
	u, err := parseUMsg(b)
	c.Must(err, "parse")
	c.Check(u.Type == uint64(m.typ) && u.Filesize != nil && *u.Filesize == m.total() && bytes.Equal(u.Data, m.data), "encoded",
		"encoded as type %d size %d data %x, want type %d size %d data %x", u.Type, val(u.Filesize), u.Data, m.typ, m.total(), m.data)
	c.Check(fmt.Sprint(u.Blocksizes) == fmt.Sprint(m.sizes), "encoded-sizes", "encoded sizes %v, want %v", u.Blocksizes, m.sizes)
	return b
}

func runC19(c *Case) {
	if c.R.Chance(0.3) {
		overDag(c)
		return
	}
	r := c.R
	type pair struct {
		n *ft.FSNode
		m *fsModel
	}
	typ := pick(r, ft.TFile, ft.TFile, ft.TFile, ft.TRaw, ft.TRaw, ft.TDirectory, ft.TSymlink, ft.TMetadata, ft.THAMTShard)
	live := []pair{{ft.NewFSNode(typ), &fsModel{typ: typ}}}
	live[0].m.check(c, live[0].n)
	huge := r.Chance(0.2)
	size := func() uint64 {
		if huge {
			c.Count("huge_sizes", 1)
			return genU64(r)
		}
		return uint64(r.Intn(pick(r, 2, 300, 1<<20)))
	}
	type enc struct{ b, keep []byte }
	var encs []enc
	key := ""
	for i := r.Range(3, 60); i > 0; i-- {
		p := &live[r.Intn(len(live))]
		op := r.Intn(12)
		switch {
		case op < 3:
			d := genFieldData(r)
			c.Logf("set %d bytes", len(d))
			p.n.SetData(d)
			p.m.data = append([]byte(nil), d...)
			c.Count("set_data", 1)
		case op < 7:
			s := size()
			c.Logf("add %d", s)
			p.n.AddBlockSize(s)
			p.m.sizes = append(p.m.sizes, s)
			c.Count("add_size", 1)
		case op < 9 && len(p.m.sizes) > 0:
			j := r.Intn(len(p.m.sizes))
			c.Logf("remove %d", j)
			p.n.RemoveBlockSize(j)
			p.m.sizes = append(p.m.sizes[:j:j], p.m.sizes[j+1:]...)
			c.Count("remove_size", 1)
		case op == 9:
			c.Logf("clear")
			p.n.RemoveAllBlockSizes()
			p.m.sizes = nil
			c.Count("clear_sizes", 1)
		default:
			b := p.m.check(c, p.n)
			q, err := ft.FSNodeFromBytes(b)
			c.Must(err, "decode")
			encs = append(encs, enc{b, append([]byte(nil), b...)})
			c.Logf("encode and decode")
			if len(live) < 4 && r.Chance(0.5) {
				live = append(live, pair{q, p.m.clone()})
			} else {
				p.n = q
			}
			c.Count("roundtrips", 1)
		}
		key += fmt.Sprint(op, live[0].m.total(), ";")
		for _, p := range live {
			p.m.check(c, p.n)
		}
	}
	for _, e := range encs {
		c.Check(bytes.Equal(e.b, e.keep), "encoding-changed", "bytes returned earlier have changed")
	}
	c.Eval(key)
	c.Sample(fmt.Sprintf("%s nodes=%d final size=%d ops=%s", typ, len(live), live[0].m.total(), head(key, 200)))
}

// overDag drives the importer's node wrapper, which keeps the unixfs node and
// the dag-pb links in step.
func overDag(c *Case) {
	r := c.R
	m := newMemDAG()
	b := pick(r, builders[:6]...)
	p := h.DagBuilderParams{Dagserv: m, Maxlinks: 8, CidBuilder: b.b}
	db, err := p.New(chunkSpec{size: 4}.splitter(bytes.NewReader(nil)))
	c.Must(err, "helper")
	typ := pick(r, ft.TFile, ft.TRaw)
	n := db.NewFSNodeOverDag(typ)
	mod := &fsModel{typ: typ}
	var links []rLink
	key := ""
	for i := r.Range(3, 40); i > 0; i-- {
		op := r.Intn(8)
		switch {
		case op == 0 && r.Chance(0.3):
			c.Logf("add a child without a size")
			err := n.AddChild(unsized{mdag.NewRawNode(r.Bytes(5))}, 5, db)
			c.Check(err != nil, "unsized-success", "adding a child that cannot tell its size succeeded")
			c.Count("failed_adds", 1)
		case op == 1 && r.Chance(0.3):
			c.Logf("add a child that cannot be stored")
			m.setFault(func(Op) error { return errInjected })
			ch := mdag.NewRawNode(r.Bytes(5))
			err := n.AddChild(ch, 5, db)
			m.setFault(nil)
			c.Check(err != nil, "fault-lost", "adding a child that cannot be stored succeeded")
			// whether it counts is unspecified, but both sides must agree
			if n.NumChildren() > len(links) {
				sz, _ := ch.Size()
				links = append(links, rLink{"", ch.Cid(), sz})
				mod.sizes = append(mod.sizes, 5)
			}
			c.Must(m.Add(bg, ch), "add")
			c.Count("failed_adds", 1)
		case op < 4:
			d := r.Bytes(r.Intn(60))
			var ch ipld.Node = mdag.NewRawNode(d)
			if r.Chance(0.5) {
				ch, err = db.NewLeafNode(d, ft.TRaw)
				c.Must(err, "leaf")
			}
			s := uint64(len(d))
			c.Logf("add child %s of %d bytes", ch.Cid(), s)
			c.Must(n.AddChild(ch, s, db), "addchild")
			sz, _ := ch.Size()
			links = append(links, rLink{"", ch.Cid(), sz})
			mod.sizes = append(mod.sizes, s)
			c.Count("add_size", 1)
		case op < 6 && len(links) > 0:
			j := r.Intn(len(links))
			c.Logf("remove child %d", j)
			n.RemoveChild(j, db)
			links = append(links[:j:j], links[j+1:]...)
			mod.sizes = append(mod.sizes[:j:j], mod.sizes[j+1:]...)
			c.Count("remove_size", 1)
		case op == 6:
			d := genFieldData(r)
			c.Logf("set %d bytes", len(d))
			n.SetFileData(d)
			mod.data = append([]byte(nil), d...)
			c.Count("set_data", 1)
		default:
			nd, err := n.Commit()
			c.Must(err, "commit")
			c.Must(m.Add(bg, nd), "add")
			back, err := m.get(nd.Cid())
			c.Must(err, "get")
			n, err = h.NewFSNFromDag(back.(*mdag.ProtoNode))
			c.Must(err, "fromdag")
			c.Logf("commit and reload")
			c.Count("roundtrips", 1)
		}
		key += fmt.Sprint(op, mod.total(), ";")
		c.Check(n.NumChildren() == len(links), "children", "%d children, want %d", n.NumChildren(), len(links))
		c.Check(n.FileSize() == mod.total(), "filesize", "FileSize %d, want %d", n.FileSize(), mod.total())
		nd, err := n.Commit()
		c.Must(err, "commit")
		got, err := n.GetDagNode()
		c.Must(err, "getdagnode")
		c.Check(got.Cid().Equals(nd.Cid()), "getdagnode", "GetDagNode is not the committed node")
		ls, data, err := parseDagPB(nd.RawData())
		c.Must(err, "parse")
		c.Check(len(ls) == len(links), "links", "%d links, want %d", len(ls), len(links))
		for i := range ls {
			c.Check(ls[i].Cid.Equals(links[i].Cid) && ls[i].Tsize == links[i].Tsize && ls[i].Name == "", "links", "link %d is %v, want %v", i, ls[i], links[i])
		}
		u, err := parseUMsg(data)
		c.Must(err, "parse")
		c.Check(u.Filesize != nil && *u.Filesize == mod.total() && bytes.Equal(u.Data, mod.data) && fmt.Sprint(u.Blocksizes) == fmt.Sprint(mod.sizes) && u.Type == uint64(typ),
			"encoded", "committed as %+v, want %d bytes of data, sizes %v", *u, len(mod.data), mod.sizes)
		if len(links) > 0 && r.Chance(0.3) {
			j := r.Intn(len(links))
			if links[j].Cid.Prefix().Codec == cid.DagProtobuf {
				g, err := n.GetChild(bg, j, m)
				c.Must(err, "getchild")
				c.Check(g.FileSize() == mod.sizes[j], "getchild", "child %d has size %d, want %d", j, g.FileSize(), mod.sizes[j])
			}
		}
	}
	c.Count("over_dag", 1)
	c.Eval("dag" + key)
}
