package main

import (
	"errors"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mh "github.com/multiformats/go-multihash"
)

// foreignNode is a node of another IPLD format, as a real store returns them
// for blocks that are neither dag-pb nor raw: it may have links, but has no
// unixfs content.
type foreignNode struct {
	blocks.Block
	links []*ipld.Link
}

const foreignCodec = cid.DagCBOR

var errForeign = errors.New("zverif: no such path in the foreign node")

// newForeign makes a node holding data and links to the given nodes.
func newForeign(data []byte, to ...cid.Cid) ipld.Node {
	raw := []byte{byte(len(to))}
	for _, k := range to {
		raw = append(raw, byte(k.ByteLen()))
		raw = append(raw, k.Bytes()...)
	}
	raw = append(raw, data...)
	h, err := mh.Sum(raw, mh.SHA2_256, -1)
	if err != nil {
		panic(err)
	}
	b, err := blocks.NewBlockWithCid(raw, cid.NewCidV1(foreignCodec, h))
	if err != nil {
		panic(err)
	}
	nd, err := decodeForeign(b)
	if err != nil {
		panic(err)
	}
	return nd
}

func decodeForeign(b blocks.Block) (ipld.Node, error) {
	raw := b.RawData()
	n := &foreignNode{Block: b}
	bad := errors.New("zverif: malformed foreign node")
	if len(raw) == 0 {
		return nil, bad
	}
	k := int(raw[0])
	raw = raw[1:]
	for ; k > 0; k-- {
		if len(raw) == 0 || len(raw) < 1+int(raw[0]) {
			return nil, bad
		}
		c, err := cid.Cast(raw[1 : 1+int(raw[0])])
		if err != nil {
			return nil, err
		}
		n.links = append(n.links, &ipld.Link{Cid: c})
		raw = raw[1+int(raw[0]):]
	}
	return n, nil
}

func (n *foreignNode) Resolve(path []string) (interface{}, []string, error) {
	return nil, nil, errForeign
}
func (n *foreignNode) Tree(path string, depth int) []string { return nil }
func (n *foreignNode) ResolveLink(path []string) (*ipld.Link, []string, error) {
	return nil, nil, errForeign
}
func (n *foreignNode) Copy() ipld.Node {
	c := &foreignNode{Block: n.Block}
	for _, l := range n.links {
		x := *l
		c.links = append(c.links, &x)
	}
	return c
}
func (n *foreignNode) Links() []*ipld.Link           { return n.links }
func (n *foreignNode) Stat() (*ipld.NodeStat, error) { return &ipld.NodeStat{}, nil }
func (n *foreignNode) Size() (uint64, error)         { return uint64(len(n.RawData())), nil }

// unsized is a node that cannot tell its size, so no link to it can be made.
type unsized struct{ ipld.Node }

var errUnsized = errors.New("zverif: the node cannot tell its size")

func (n unsized) Size() (uint64, error)         { return 0, errUnsized }
func (n unsized) Stat() (*ipld.NodeStat, error) { return nil, errUnsized }
