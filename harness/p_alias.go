package main

import (
	"bytes"
	"fmt"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
)

// keeper remembers objects that crossed the API, with a deep snapshot of
// each, and can check that none of them changed.
type keeper struct {
	c     *Case
	own   bool // instead, treat the objects as the caller's own: change them at will
	nodes []keptNode
	links []keptLink
	lists []keptList
}

// ownLinks: link objects count as the caller's, too.
const ownLinks = true

type linkVal struct {
	name string
	size uint64
	c    string
}

func valOf(l *ipld.Link) linkVal { return linkVal{l.Name, l.Size, l.Cid.KeyString()} }

type keptNode struct {
	what  string
	step  int
	nd    ipld.Node
	c     cid.Cid
	raw   []byte
	data  []byte
	links []linkVal
}

type keptLink struct {
	what string
	step int
	l    *ipld.Link
	v    linkVal
}

type keptList struct {
	what string
	step int
	ls   []*ipld.Link
	v    []linkVal
}

func (k *keeper) step() int { return len(k.c.trace) }

// useNode changes a node through its own methods, as its owner may.
func (k *keeper) useNode(what string, nd ipld.Node) {
	pn, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return
	}
	r := k.c.R
	for i := r.Range(1, 3); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			pn.SetData(r.Bytes(r.Intn(20)))
		case 1:
			k.c.Must(pn.AddNodeLink(pick(r, "", "zz", "00zz"), mdag.NewRawNode(r.Bytes(4))), "own-add")
		case 2:
			pn.SetLinks(nil)
		case 3:
			if ls := pn.Links(); len(ls) > 0 {
				_ = pn.RemoveNodeLink(ls[r.Intn(len(ls))].Name)
			}
		case 4:
			pn.SetCidBuilder(pick(r, builders...).b)
		default:
			if ls := pn.Links(); len(ls) > 0 {
				pn.SetLinks(append([]*ipld.Link{}, ls[r.Intn(len(ls)):]...))
			}
		}
	}
	if r.Chance(0.5) {
		pn.Cid() // encode it now
	}
	k.c.Count("own_nodes_changed", 1)
	k.c.Logf("  the caller changed its %s", what)
}

func (k *keeper) node(what string, nd ipld.Node) {
	if k.own {
		k.useNode(what, nd)
		return
	}
	if len(k.nodes) > 60 {
		return
	}
	n := keptNode{what: what, step: k.step(), nd: nd, c: nd.Cid(), raw: append([]byte(nil), nd.RawData()...)}
	if pn, ok := nd.(*mdag.ProtoNode); ok {
		n.data = append([]byte(nil), pn.Data()...)
	}
	for _, l := range nd.Links() {
		n.links = append(n.links, valOf(l))
		k.link("link of "+what, l)
	}
	k.nodes = append(k.nodes, n)
}

func (k *keeper) link(what string, l *ipld.Link) {
	if k.own {
		return // link objects are shared, and not for callers to change
	}
	if len(k.links) > 3000 {
		return
	}
	k.links = append(k.links, keptLink{what, k.step(), l, valOf(l)})
}

func (k *keeper) list(what string, ls []*ipld.Link) {
	if k.own {
		for i := range ls {
			ls[i] = nil
		}
		k.c.Count("own_lists_changed", 1)
		return
	}
	if len(k.lists) > 60 {
		return
	}
	x := keptList{what: what, step: k.step(), ls: ls}
	for _, l := range ls {
		x.v = append(x.v, valOf(l))
		k.link("link in "+what, l)
	}
	k.lists = append(k.lists, x)
}

// check verifies every object against its snapshot.
func (k *keeper) check(prefix string) {
	c := k.c
	for _, n := range k.nodes {
		w := fmt.Sprintf("%s (kept at step %d)", n.what, n.step)
		ls := n.nd.Links()
		c.Check(len(ls) == len(n.links), "node-links:"+n.what, "%s had %d links, now %d", w, len(n.links), len(ls))
		for i, l := range ls {
			c.Check(valOf(l) == n.links[i], "node-links:"+n.what, "%s: link %d changed from %v to %v", w, i, n.links[i], valOf(l))
		}
		c.Check(n.nd.Cid().Equals(n.c), "node-cid:"+n.what, "%s changed its CID from %s to %s", w, n.c, n.nd.Cid())
		c.Check(bytes.Equal(n.nd.RawData(), n.raw), "node-bytes:"+n.what, "%s changed its bytes", w)
		if pn, ok := n.nd.(*mdag.ProtoNode); ok {
			c.Check(bytes.Equal(pn.Data(), n.data), "node-data:"+n.what, "%s changed its data", w)
			// what it would encode to now, caches aside
			cp := pn.Copy()
			c.Check(bytes.Equal(cp.RawData(), n.raw) && cp.Cid().Equals(n.c), "node-reencode:"+n.what, "%s encodes differently now", w)
		}
		c.Count(prefix+"snapshots_checked", 1)
	}
	for _, l := range k.links {
		c.Check(valOf(l.l) == l.v, "link:"+l.what, "%s (kept at step %d) changed from %v to %v", l.what, l.step, l.v, valOf(l.l))
	}
	c.Count("links_checked", len(k.links))
	for _, x := range k.lists {
		for i, l := range x.ls {
			c.Check(valOf(l) == x.v[i], "list:"+x.what, "%s (kept at step %d): element %d changed from %v to %v", x.what, x.step, i, x.v[i], valOf(l))
		}
		c.Count("link_lists_checked", 1)
	}
}

func runC08(c *Case) {
	own := c.R.Chance(0.3)
	switch c.R.Intn(3) {
	case 0:
		aliasModifier(c, own)
	case 1:
		aliasDirectory(c, own)
	default:
		aliasShard(c, own)
	}
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

func aliasModifier(c *Case, own bool) {
	d := newModDrv(c, pick(c.R, builders...))
	k := &keeper{c: c, own: own}
	type snap struct {
		c       cid.Cid
		content []byte
	}
	snaps := []snap{{d.start.Cid(), append([]byte(nil), d.model...)}}
	k.node("node passed to NewDagModifier", d.start)
	n := c.R.Range(5, 50)
	for i := 0; i < n; i++ {
		o := d.genOp()
		if c.R.Chance(0.1) {
			o = modOp{kind: "GetNode"}
		}
		c.Logf("%s (size %d, at %d)", o, len(d.model), d.cur)
		r := d.exec(o)
		d.judge(o, r)
		if o.kind == "GetNode" && r.nd != nil {
			d.checkNode(r.nd, "content")
			snaps = append(snaps, snap{r.nd.Cid(), append([]byte(nil), d.model...)})
			k.node("node from GetNode", r.nd)
		}
		if c.R.Chance(0.2) {
			k.check("")
		}
	}
	k.check("")
	// all of them are still readable
	for _, s := range snaps {
		nd, err := d.m.Get(bg, s.c)
		c.Must(err, "kept-unreadable")
		c.Check(bytes.Equal(d.content(nd), s.content), "kept-content", "a node kept from earlier reads differently now")
	}
	for i, kn := range k.nodes {
		if i < len(snaps) {
			c.Check(bytes.Equal(d.content(kn.nd), snaps[i].content), "kept-object-content", "a node object kept from earlier reads differently now")
		}
	}
	c.Eval(string(d.key) + fmt.Sprint(c.Seed))
	c.Count("operations", n)
}

func aliasDirectory(c *Case, own bool) {
	cfg := genDirCfg(c.R)
	d := newDirDrv(c, cfg, c.R.Range(3, 40))
	k := &keeper{c: c, own: own}
	for _, nd := range d.nodes {
		if !own {
			k.node("child node", nd)
		}
	}
	n := c.R.Range(5, 60)
	bias := 0.65
	for i := 0; i < n; i++ {
		if c.R.Chance(0.1) {
			bias = pick(c.R, 0.2, 0.4, 0.7)
		}
		switch c.R.Intn(12) {
		case 0:
			nd, err := d.dir.GetNode()
			c.Must(err, "getnode")
			c.Logf("GetNode")
			k.node("node from GetNode ("+d.kind+")", nd)
		case 1:
			ls, err := d.dir.Links(bg)
			c.Must(err, "links")
			c.Logf("Links")
			k.list("list from Links ("+d.kind+")", ls)
		case 2:
			c.Logf("ForEachLink")
			c.Must(d.dir.ForEachLink(bg, func(l *ipld.Link) error {
				k.link("link from ForEachLink ("+d.kind+")", l)
				return nil
			}), "foreach")
		case 3:
			c.Logf("EnumLinksAsync")
			for r := range d.dir.EnumLinksAsync(bg) {
				c.Must(r.Err, "enum")
				k.link("link from EnumLinksAsync ("+d.kind+")", r.Link)
			}
		case 4:
			nd, err := d.dir.GetNode()
			c.Must(err, "getnode")
			if d.kind == "basic" {
				c.Must(d.m.Add(bg, nd), "add")
			}
			if c.R.Chance(0.5) {
				nd, err = d.m.Get(bg, nd.Cid())
				c.Must(err, "get")
			}
			c.Logf("NewDirectoryFromNode")
			if !own {
				k.node("node passed to NewDirectoryFromNode ("+d.kind+")", nd)
			}
			d.dir, err = uio.NewDirectoryFromNode(d.m, nd)
			c.Must(err, "fromnode")
			if own {
				k.node("node passed to NewDirectoryFromNode ("+d.kind+")", nd)
			}
		case 5:
			if p := d.present(); p != "" {
				nd, err := d.dir.Find(bg, p)
				c.Must(err, "find")
				k.node("node from Find", nd)
			}
		case 6:
			if own {
				nd := pick(c.R, d.nodes...).Copy()
				d.add(c.R.pickStr(d.names), nd)
				k.node("child node", nd)
			}
		default:
			d.mutate(bias)
		}
		if own && c.R.Chance(0.3) {
			d.list()
		}
		if c.R.Chance(0.25) {
			k.check("dir_")
		}
	}
	k.check("dir_")
	if own {
		d.list()
		d.reload()
		d.list()
	}
	c.Eval(string(d.key) + fmt.Sprint(c.Seed))
	c.Count("operations", n)
}

func aliasShard(c *Case, own bool) {
	d := newShardDrv(c, c.R.Chance(0.5))
	d.keep = &keeper{c: c, own: own}
	for _, nd := range d.nodes {
		if !own {
			d.keep.node("child node", nd)
		}
	}
	n := c.R.Range(5, 80)
	bias := 0.7
	for i := 0; i < n; i++ {
		if c.R.Chance(0.1) {
			bias = pick(c.R, 0.2, 0.4, 0.7)
		}
		switch c.R.Intn(12) {
		case 0:
			c.Must(d.s.ForEachLink(bg, func(l *ipld.Link) error {
				d.keep.link("link from shard ForEachLink", l)
				return nil
			}), "foreach")
		case 1:
			ls, err := d.s.EnumLinks(bg)
			c.Must(err, "enum")
			d.keep.list("list from EnumLinks", ls)
		default:
			d.step(bias)
		}
		if c.R.Chance(0.25) {
			d.keep.check("shard_")
		}
	}
	d.keep.check("shard_")
	if own {
		d.checkAll()
		d.reload()
		d.checkAll()
	}
	c.Eval(string(d.key) + fmt.Sprint(c.Seed))
	c.Count("operations", n)
}

var _ = ft.TFile
