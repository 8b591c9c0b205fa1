package main

import (
	"fmt"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	"github.com/ipfs/go-unixfs/importer/trickle"
)

func init() {
	register(&Prop{
		ID: "C25", Quick: 14000, Thorough: 500000,
		Rule:        "a case builds a trickle file (import plus appends), requires the verifier to accept it, then applies one structural mutation at a random node (or a parameter mismatch, missing block or fetch failure) and requires rejection whenever the independent structure checker rejects; non-trivial = the checker rejected the mutant, keyed by mutation and root",
		Assumptions: []string{"acceptance is only demanded of DAGs the importer or append produced with the same parameters"},
		Required: []string{"accepted", "rejected_leaftype", "rejected_leafformat", "rejected_leaflinks", "rejected_branchdata", "rejected_branchtype",
			"rejected_direct", "rejected_deep", "rejected_prefix", "rejected_missing", "rejected_fault", "rejected_garbage", "rejected_params"},
		Run: runC25,
	})
}

// mtree is an editable file DAG.
type mtree struct {
	c       cid.Cid // as loaded
	raw     bool
	data    []byte // of a raw leaf
	u       *uMsg
	kids    []*mtree
	depth   int // position in the trickle layout: 0 leaf, -1 root
	b       bspec
	garbage []byte
	missing bool
}

func loadTree(m *memDAG, c cid.Cid, b bspec) (*mtree, error) {
	raw, ok := m.block(c)
	if !ok {
		return nil, fmt.Errorf("missing %s", c)
	}
	t := &mtree{c: c, b: b}
	if c.Prefix().Codec == cid.Raw {
		t.raw, t.data = true, raw
		return t, nil
	}
	links, data, err := parseDagPB(raw)
	if err != nil {
		return nil, err
	}
	if t.u, err = parseUMsg(data); err != nil {
		return nil, err
	}
	for _, l := range links {
		k, err := loadTree(m, l.Cid, b)
		if err != nil {
			return nil, err
		}
		t.kids = append(t.kids, k)
	}
	return t, nil
}

func (t *mtree) copy() *mtree {
	o := *t
	if t.u != nil {
		u := *t.u
		o.u = &u
	}
	o.kids = nil
	for _, k := range t.kids {
		o.kids = append(o.kids, k.copy())
	}
	return &o
}

func (t *mtree) size() uint64 {
	if t.raw {
		return uint64(len(t.data))
	}
	n := uint64(len(t.u.Data))
	for _, k := range t.kids {
		n += k.size()
	}
	return n
}

// store writes the DAG, with consistent sizes, and returns its root.
func (t *mtree) store(m *memDAG) (cid.Cid, uint64) {
	if t.raw {
		c := t.b.raw(t.data)
		if !t.missing {
			m.put(c, t.data)
		}
		return c, uint64(len(t.data))
	}
	var links []rLink
	var ts uint64
	u := *t.u
	u.Blocksizes = nil
	for _, k := range t.kids {
		c, s := k.store(m)
		links = append(links, rLink{"", c, s})
		ts += s
		u.Blocksizes = append(u.Blocksizes, k.size())
	}
	u.Filesize = u64(t.size())
	data := u.encode()
	if t.garbage != nil {
		data = t.garbage
	}
	raw := encDagPB(links, data)
	c := t.b.pb(raw)
	if !t.missing {
		m.put(c, raw)
	}
	return c, ts + uint64(len(raw))
}

// mark sets every node's layout depth and collects them.
func (t *mtree) mark(depth, direct int, all *[]*mtree) {
	t.depth = depth
	*all = append(*all, t)
	for i, k := range t.kids {
		d := 0
		if i >= direct {
			d = (i-direct)/4 + 1
		}
		k.mark(d, direct, all)
	}
}

func runC25(c *Case) {
	r := c.R
	m := newMemDAG()
	s := genImp(r)
	s.trickle = true
	s.maxlinks = pick(r, 2, 2, 3, 3, 4, 5, 8, 30)
	n := s.genLen(r, 220)
	if r.Chance(0.8) && n < 3*s.maxlinks {
		n = s.genLen(r, 220)
	}
	data := r.Bytes(n)
	nd, err := s.importBytes(m, data)
	c.Must(err, "import")
	if r.Chance(0.4) {
		for k := r.Range(1, 3); k > 0; k-- {
			nd, err = s.appendBytes(m, nd, r.Bytes(s.genLen(r, 80)))
			c.Must(err, "append")
		}
		c.Must(m.Add(bg, nd), "add")
	}
	root, err := m.get(nd.Cid())
	c.Must(err, "get")
	params := func(g ipld.NodeGetter) trickle.VerifyParams {
		return trickle.VerifyParams{Getter: g, Direct: s.maxlinks, LayerRepeat: 4, Prefix: s.b.prefix(), RawLeaves: s.raw}
	}
	p := params(m)
	if r.Chance(0.3) {
		p.Prefix = nil
	} else if p.Prefix != nil && r.Chance(0.2) {
		p.Prefix.MhLength = -1
		if s.b.name == "v1-sha256-20" {
			p.Prefix = s.b.prefix()
		}
	}
	c.Logf("%s, %d bytes, prefix check %v", s, n, p.Prefix != nil)
	c.Must(refTrickleCheck(m.block, root.Cid(), s.maxlinks, 4, s.raw, s.b.prefix()), "reference")
	err = trickle.VerifyTrickleDagStructure(root, p)
	c.Check(err == nil, "accept", "a trickle DAG made by the library is rejected: %v", err)
	c.Count("accepted", 1)

	t, err := loadTree(m, root.Cid(), s.b)
	c.Must(err, "load")
	for k := 0; k < 4; k++ {
		mutant(c, s, t.copy())
	}
	c.Sample(fmt.Sprint(c.trace))
}

func mutant(c *Case, s impSpec, t *mtree) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(r.Uint64())
	var all []*mtree
	t.mark(-1, s.maxlinks, &all)
	var leaves, inner, subs []*mtree // subs: inner nodes below the root
	for _, n := range all {
		if n.depth == 0 {
			leaves = append(leaves, n)
		} else {
			inner = append(inner, n)
			if n != t {
				subs = append(subs, n)
			}
		}
	}
	anyOf := func(l []*mtree) *mtree {
		if len(l) == 0 {
			return nil
		}
		if r.Chance(0.3) { // the last ones are the easiest to forget
			return l[len(l)-1]
		}
		return l[r.Intn(len(l))]
	}
	toPB := func(n *mtree) {
		n.u = &uMsg{Type: uRaw, Data: n.data}
		n.raw, n.data = false, nil
	}
	prefix, direct, repeat, raw := s.b.prefix(), s.maxlinks, 4, s.raw
	if r.Chance(0.3) {
		prefix = nil
	}
	fault := false
	kind := pick(r, "leaftype", "leafformat", "leaflinks", "branchdata", "branchtype", "direct", "deep", "prefix", "missing", "fault", "garbage", "params")
	switch kind {
	case "leaftype":
		n := anyOf(leaves)
		if n == nil || n.raw {
			return
		}
		n.u.Type = pick(r, uint64(uFile), uFile, uDirectory, uMetadata, uSymlink, uHAMT)
	case "leafformat":
		n := anyOf(leaves)
		if n == nil {
			return
		}
		if n.raw {
			toPB(n)
		} else {
			n.raw, n.data, n.u = true, n.u.Data, nil
		}
	case "leaflinks":
		n, o := anyOf(leaves), anyOf(all)
		if n == nil {
			return
		}
		o = o.copy()
		if n.raw {
			toPB(n)
		}
		n.kids = []*mtree{o}
	case "branchdata":
		anyOf(inner).u.Data = r.Bytes(r.Range(1, 5))
	case "branchtype":
		anyOf(inner).u.Type = pick(r, uint64(uRaw), uRaw, uDirectory, uMetadata, uSymlink, uHAMT)
	case "direct": // a sub-trie among the direct children
		n, o := anyOf(inner), anyOf(subs)
		if n == nil || o == nil || len(n.kids) == 0 {
			return
		}
		i := r.Intn(min(len(n.kids), s.maxlinks))
		if r.Chance(0.3) {
			i = min(len(n.kids), s.maxlinks) - 1
		}
		n.kids[i] = o.copy()
	case "deep":
		n := anyOf(subs)
		if n == nil {
			return
		}
		if r.Chance(0.3) { // a sub-trie used where a shallower one belongs
			p := anyOf(inner)
			if len(p.kids) <= s.maxlinks {
				return
			}
			deepest := subs[0]
			for _, x := range subs {
				if x.depth > deepest.depth {
					deepest = x
				}
			}
			i := s.maxlinks + r.Intn(min(len(p.kids)-s.maxlinks, 4))
			p.kids[i] = deepest.copy()
			break
		}
		// one more layer of children than the node's own depth allows
		leaf := leaves[0].copy()
		limit := s.maxlinks + 4*(n.depth-1)
		if limit > 400 {
			return
		}
		for len(n.kids) < limit+1 {
			if len(n.kids) < s.maxlinks {
				n.kids = append(n.kids, leaf.copy())
			} else {
				n.kids = append(n.kids, &mtree{u: &uMsg{Type: uFile}, kids: []*mtree{leaf.copy()}, b: s.b})
			}
		}
	case "prefix":
		prefix = s.b.prefix()
		anyOf(all).b = pick(r, builders...)
	case "missing":
		if len(all) < 2 {
			return
		}
		all[r.Range(1, len(all)-1)].missing = true
	case "garbage":
		n := anyOf(all)
		if n.raw {
			return
		}
		n.garbage = pick(r, []byte{8}, []byte{8, 2, 18}, []byte{8, 2, 18, 200}, []byte{8, 2, 24}, []byte{24, 0}, []byte{8, 2, 24, 255})
	case "params":
		switch r.Intn(4) {
		case 0:
			raw = !raw
		case 1:
			direct = max(1, direct+pick(r, -1, 1, 2, -2))
		case 2:
			repeat = pick(r, 1, 2, 3, 5)
		default:
			prefix = pick(r, builders...).prefix()
		}
	}
	root, _ := t.store(m)
	for _, n := range all { // a missing block may have a twin that is present
		if n.missing {
			cc, _ := n.store(newMemDAG())
			m.Remove(bg, cc)
		}
	}
	rootNd, err := m.get(root)
	if err != nil {
		return // the mutated root cannot even be decoded
	}
	if kind == "fault" {
		if len(all) < 2 {
			return
		}
		pos := r.Intn(len(all) - 1)
		ferr := genStoreFault(c, c.R)
		m.setFault(func(op Op) error {
			if op.N == pos {
				return ferr
			}
			return nil
		})
		fault = true
	}
	want := refTrickleCheck(m.block, root, direct, repeat, raw, prefix)
	got := trickle.VerifyTrickleDagStructure(rootNd, trickle.VerifyParams{Getter: m, Direct: direct, LayerRepeat: repeat, Prefix: prefix, RawLeaves: raw})
	if fault {
		if m.faults == 0 {
			return
		}
		want = errInjected
	}
	c.Logf("%s: reference says %v, verifier says %v", kind, want, got)
	if want == nil {
		c.Count("mutants_still_valid", 1)
		c.Eval("")
		return
	}
	c.Check(got != nil, "reject:"+kind, "the verifier accepts an invalid DAG (%s): %v", kind, want)
	c.Count("rejected_"+kind, 1)
	c.Eval(kind + root.String())
}
