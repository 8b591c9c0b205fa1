package main

import (
	"bytes"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
)

// runC07Refuse: what has no file content cannot be modified, and says so.
func runC07Refuse(c *Case) {
	m := newMemDAG()
	r := c.R
	var nd ipld.Node
	var what string
	switch r.Intn(3) {
	case 0:
		nd, what = newForeign(r.Bytes(r.Intn(20))), "other node type"
	case 1:
		for what != "no unixfs data" && what != "undecodable" {
			nd, _, what = genNotFile(c, m)
		}
	default:
		fs := uint64(1 << 63)
		if r.Chance(0.8) {
			fs += r.Uint64() >> uint(1+r.Intn(60))
		}
		u := &uMsg{Type: 2, Filesize: &fs}
		pn := mdag.NodeWithData(u.encode())
		pn.SetCidBuilder(pick(r, builders...).b)
		nd, what = pn, fmt.Sprintf("file size %d", fs)
	}
	c.Logf("modify: %s", what)
	dm, err := mod.NewDagModifier(bg, nd, m, genModChunks(r).gen())
	c.Count("refused_modifiers", 1)
	c.Eval("refuse|" + what + "|" + nd.Cid().String())
	if what == "other node type" {
		c.Check(err != nil, "opened", "a modifier was opened on: %s", what)
		c.Check(dm == nil, "opened", "a modifier was returned with an error on: %s", what)
		return
	}
	if err != nil {
		return
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var err error
		n := int64(0)
		op := pick(r, "Size", "Seek", "Truncate", "Write", "WriteAt")
		switch op {
		case "Size":
			n, err = dm.Size()
		case "Seek":
			n, err = dm.Seek(int64(r.Intn(10)), r.Intn(3))
		case "Truncate":
			err = dm.Truncate(int64(r.Intn(10)))
		default:
			if op == "Write" {
				_, err = dm.Write(r.Bytes(5))
			} else {
				_, err = dm.WriteAt(r.Bytes(5), int64(r.Intn(10)))
			}
			if err == nil {
				if r.Chance(0.5) {
					err = dm.Sync()
				} else {
					_, err = dm.GetNode()
				}
			}
		}
		c.Check(err != nil, "accepted-malformed:"+op, "%s on a root with %s succeeds", op, what)
		c.Check(n == 0, "accepted-malformed:"+op, "%s on a root with %s returned %d with its error", op, what, n)
	}
}

// runC07Malformed: one leaf of the file is no file block, or does not hold
// the bytes its parent records. Whatever succeeds must leave the rest right.
func runC07Malformed(c *Case) {
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	r := c.R
	var nd ipld.Node
	var d []byte
	var desc string
	for nd == nil || len(nd.Links()) == 0 || len(d) == 0 {
		nd, d, desc = genFile(c, m, 2000)
	}
	if pn, ok := nd.(*mdag.ProtoNode); ok {
		if f, err := ft.FSNodeFromBytes(pn.Data()); err == nil && f.Type() == ft.TMetadata {
			nd, _ = m.get(nd.Links()[0].Cid)
			if len(nd.Links()) == 0 {
				c.Eval("")
				return
			}
		}
	}
	var spans []fileSpan
	_, err := m.fileSpans(nd.Cid(), 0, &spans)
	c.Must(err, "spans")
	var cand []fileSpan
	for _, s := range spans {
		if s.leaf && s.start < s.end {
			cand = append(cand, s)
		}
	}
	v := pick(r, cand...)
	var repl ipld.Node
	what := pick(r, "longer", "shorter", "empty", "not a file")
	n := int(v.end - v.start)
	leaf := func(b []byte) ipld.Node {
		switch r.Intn(3) {
		case 0:
			return mdag.NewRawNode(b)
		case 1:
			return mdag.NodeWithData(ft.FilePBData(b, uint64(len(b))))
		default:
			return mdag.NodeWithData(ft.WrapData(b))
		}
	}
	undecodable := false
	switch what {
	case "longer":
		repl = leaf(r.Bytes(n + r.Range(1, 30)))
	case "shorter":
		repl = leaf(r.Bytes(r.Intn(n)))
	case "empty":
		repl = leaf(nil)
	default:
		for {
			repl, _, what = genNotFile(c, m)
			if len(repl.Links()) == 0 && what != "metadata without a child" {
				break
			}
		}
		undecodable = what == "undecodable" || what == "no unixfs data"
	}
	m.put(repl.Cid(), repl.RawData())
	root, err := m.rewire(nd.Cid(), v.hash, repl.Cid())
	c.Must(err, "rewire")
	var holes []fileSpan
	for _, s := range spans {
		if s.hash == v.hash && s.start < s.end {
			holes = append(holes, s)
		}
	}
	c.Logf("file of %d bytes: %s; leaf at [%d,%d) (%d times) is %s", len(d), desc, v.start, v.end, len(holes), what)
	inHole := func(p int64) bool {
		for _, s := range holes {
			if p >= s.start && p < s.end {
				return true
			}
		}
		return false
	}
	ok, failed := 0, 0
	for k := r.Range(1, 6); k > 0; k-- {
		rootNd, err := m.Get(bg, root)
		c.Must(err, "root")
		dm, err := mod.NewDagModifier(bg, rootNd, m, genModChunks(r).gen())
		c.Must(err, "open")
		// sizes that are right are demanded
		sz, err := dm.Size()
		c.Must(err, "size")
		c.Check(sz == int64(len(d)), "size", "Size() = %d, want %d", sz, len(d))
		want := d
		start := int64(r.Intn(len(d)))
		if r.Chance(0.5) {
			start = v.start + int64(r.Intn(n+20)) - 10
			if start < 0 {
				start = 0
			}
		}
		b := r.Bytes(r.Range(1, 150))
		op := "WriteAt"
		if r.Chance(0.25) {
			op = "Truncate"
			want = resize(d, start)
			err = dm.Truncate(start)
		} else {
			want = splice(d, start, b)
			_, err = dm.WriteAt(b, start)
			if err == nil {
				err = dm.Sync()
			}
		}
		touched, end := false, start+int64(len(b))
		for _, s := range holes {
			touched = touched || start < s.end && s.start < end
		}
		c.Logf("%s(%d) at %d: %v", op, len(b), start, err)
		if err != nil {
			c.Check(op == "Truncate" || touched || end > int64(len(d)), "refused-elsewhere", "%s of [%d,%d) in a file of %d bytes fails with %v, away from the bad leaf", op, start, end, len(d), err)
			failed++
			continue
		}
		ok++
		c.Check(!(op == "WriteAt" && touched && undecodable), "wrote-undecodable", "overwriting [%d,%d), which includes an undecodable leaf, succeeded", start, end)
		nd2, err := dm.GetNode()
		c.Must(err, "getnode")
		sz, err = dm.Size()
		c.Must(err, "size")
		c.Check(sz == int64(len(want)), "size-after", "after %s at %d Size() = %d, want %d", op, start, sz, len(want))
		dr, err := uio.NewDagReader(bg, nd2, m)
		c.Must(err, "reader")
		for p := int64(0); p < int64(len(want)); {
			if inHole(p) {
				p++
				continue
			}
			e := p
			for e < int64(len(want)) && !inHole(e) {
				e++
			}
			_, err := dr.Seek(p, io.SeekStart)
			c.Must(err, "seek")
			got := make([]byte, e-p)
			g, err := dr.CtxReadFull(bg, got)
			c.Check(g == len(got) && (err == nil || err == io.EOF), "rest-short", "after %s at %d the bytes [%d,%d) read %d, %v", op, start, p, e, g, err)
			c.Check(bytes.Equal(got, want[p:e]), "rest-wrong", "after %s of %d bytes at %d the bytes [%d,%d) are wrong: %s", op, len(b), start, p, e, diffBytes(got, want[p:e]))
			p = e
		}
	}
	c.Count("malformed_modified", 1)
	c.Count("malformed_refusals", failed)
	c.Count("malformed_successes", ok)
	c.Eval("malformed|" + root.String())
}

// checkDefaults: a modifier continues in the format of what it was opened on.
func checkDefaults(c *Case, dm *mod.DagModifier, nd ipld.Node) {
	p := nd.Cid().Prefix()
	p.Codec = cid.DagProtobuf
	c.Check(dm.Prefix == p, "default-prefix", "opened on %s the modifier uses the prefix %+v", nd.Cid(), dm.Prefix)
	c.Check(dm.RawLeaves == (p.Version > 0), "default-raw", "opened on %s the modifier has RawLeaves=%v", nd.Cid(), dm.RawLeaves)
	c.Count("defaults_checked", 1)
}
