package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"

	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 36000, Thorough: 719999,
		Rule:        "a case runs 10..120 generated operations on one shard (widths 8..1024; names with crafted hashes sharing every prefix length up to all 64 bits) and compares every result with a map in which inseparable names are refused; non-trivial = entries were stored and looked up, keyed by width and history",
		Assumptions: []string{"non-empty names; healthy store; the name field of links returned by Find, Swap and Take is not specified"},
		Required:    []string{"sets", "replaces", "removes", "missing_removes", "finds", "missing_finds", "refused", "refused_intact", "reloads", "listings", "bad_widths", "depth_ge_6", "flawed_bases"},
		Run:         runC13,
	})
	register(&Prop{
		ID: "C14", Quick: 18000, Thorough: 359999,
		Rule:        "a case drives a shard through a generated history and compares the CID of its node with the reference encoding of its current entries after steps, and finally every stored block; non-trivial = a history with removals or replacements, keyed by width, builder and history",
		Assumptions: []string{"reference HAMT encoder and murmur3 in harness/ref.go, written from the format description"},
		Required:    []string{"cid_checks", "collapses", "blocks_checked", "reloads", "two_routes"},
		Run:         runC14,
	})
	register(&Prop{
		ID: "C15", Level: "fault_enumeration", Quick: 3000, Thorough: 100000,
		Rule:        "a case builds a directory (mostly sharded, partly loaded or modified in memory) and lists it repeatedly in all six ways with missing blocks, failing fetches, cancellations at enumerated points, delays and slow or concurrent consumers; non-trivial = an enumeration of entries spread over at least two blocks, keyed by directory, way and fault",
		Assumptions: []string{"the caller drains the channel or cancels its context"},
		Required:    []string{"complete", "incomplete_with_error", "cancelled", "missing_blocks", "concurrent", "modified_in_memory", "callback_errors", "async_closed_on_cancel", "healed", "flawed_bases"},
		Leak:        true,
		Procs:       4,
		Run:         runC15,
	})
}

// shardDrv drives one shard next to its model.
type shardDrv struct {
	c     *Case
	m     *memDAG
	width int
	b     bspec
	s     *hamt.Shard
	model map[string]rEntry
	names []string
	nodes []ipld.Node
	ref   *refHAMT
	key   []byte
	keep  *keeper // C08
	large int     // operations to add, 0 except for large shards
}

func newShardDrv(c *Case, full bool) *shardDrv {
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	return newShardDrvOn(c, m, full)
}

func newShardDrvOn(c *Case, m *memDAG, full bool) *shardDrv {
	d := &shardDrv{c: c, m: m, width: pick(c.R, widths...), b: pick(c.R, builders...), model: map[string]rEntry{}}
	d.ref = newRefHAMT(d.width, d.b)
	pool := c.R.Range(2, 60)
	if c.R.Chance(0.004) {
		d.large = c.R.Range(200, 1200)
		pool = d.large
		c.Count("large_shards", 1)
	}
	d.names = genNames(c.R, pool, d.width, full)
	if !full {
		d.names = separable(d.names, d.width)
	}
	d.nodes = genEntryNodes(c, m, 6)
	var err error
	d.s, err = hamt.NewShard(m, d.width)
	c.Must(err, "newshard")
	d.s.SetCidBuilder(d.b.b)
	c.Logf("width=%d cid=%s", d.width, d.b.name)
	d.key = []byte(fmt.Sprintf("%d %s", d.width, d.b.name))
	return d
}

// clash reports whether name cannot be told apart from an existing entry.
func (d *shardDrv) clash(name string) bool {
	h := refMurmur64([]byte(name))
	for n := range d.model {
		if n != name && d.ref.collides(h, refMurmur64([]byte(n))) {
			return true
		}
	}
	return false
}

// depthOf is the number of shards on the path to a name.
func (d *shardDrv) depthOf(name string) int {
	return pathDepth(d.ref, d.model, name)
}

func pathDepth(ref *refHAMT, model map[string]rEntry, name string) int {
	h := refMurmur64([]byte(name))
	best := 0
	for n := range model {
		if n == name {
			continue
		}
		g := refMurmur64([]byte(n))
		k := 0
		for {
			a, ok := ref.slot(h, k)
			b, ok2 := ref.slot(g, k)
			if !ok || !ok2 || a != b {
				break
			}
			k++
		}
		if k > best {
			best = k
		}
	}
	return best + 1
}

func (d *shardDrv) prev(name string, l *ipld.Link, op string) {
	e, had := d.model[name]
	if !had {
		d.c.Check(l == nil, "prev-extra:"+op, "%s of the new name %q returned a previous link %v", op, name, l)
		return
	}
	d.c.Check(l != nil && l.Cid.Equals(e.Cid) && l.Size == e.Tsize, "prev-wrong:"+op, "%s %q returned previous link %+v, want %s (%d)", op, name, l, e.Cid, e.Tsize)
	if d.keep != nil {
		d.keep.link("link from "+op, l)
	}
}

func (d *shardDrv) set(name string) {
	c := d.c
	nd := d.nodes[c.R.Intn(len(d.nodes))]
	e := linkEntry(nd)
	_, had := d.model[name]
	clash := d.clash(name)
	var err error
	if c.R.Chance(0.02) {
		c.Logf("Set %q to a node without a size", name)
		if c.R.Chance(0.5) {
			err = d.s.Set(bg, name, unsized{nd})
		} else {
			_, err = d.s.Swap(bg, name, unsized{nd})
		}
		c.Check(err != nil, "unsized-success", "adding a node that cannot tell its size succeeded")
		c.Count("unsized_entries", 1)
		return
	}
	switch c.R.Intn(4) {
	case 0:
		c.Logf("Set %q %s", name, nd.Cid())
		err = d.s.Set(bg, name, nd)
	case 1:
		l := &ipld.Link{Name: pick(c.R, "", name, "zz"), Cid: nd.Cid(), Size: uint64(c.R.Intn(1 << 20))}
		e = rEntry{l.Cid, l.Size}
		c.Logf("SetLink %q %s size %d", name, nd.Cid(), l.Size)
		if d.keep != nil {
			d.keep.link("link passed to SetLink", l)
		}
		err = d.s.SetLink(bg, name, l)
	default:
		c.Logf("Swap %q %s", name, nd.Cid())
		var old *ipld.Link
		old, err = d.s.Swap(bg, name, nd)
		if err == nil {
			d.prev(name, old, "Swap")
		}
	}
	d.key = append(d.key, 's', byte(hash64(name)), byte(hash64(e.Cid.KeyString())))
	if clash && !had {
		c.Check(err != nil, "accepted-collision", "inserting %q, which no hash bit separates from an existing entry, was accepted", name)
		c.Count("refused", 1)
		if c.R.Chance(0.5) {
			d.checkAll()
			c.Count("refused_intact", 1)
		}
		return
	}
	c.Must(err, "set-err")
	d.model[name] = e
	c.Count("sets", 1)
	if had {
		c.Count("replaces", 1)
	}
	if dep := d.depthOf(name); dep >= 6 {
		c.Count("depth_ge_6", 1)
		c.Max("max_depth", dep)
	}
}

func (d *shardDrv) remove(name string) {
	c := d.c
	before := d.depthOf(name)
	var err error
	var old *ipld.Link
	take := c.R.Chance(0.5)
	if take {
		c.Logf("Take %q", name)
		old, err = d.s.Take(bg, name)
	} else {
		c.Logf("Remove %q", name)
		err = d.s.Remove(bg, name)
	}
	d.key = append(d.key, 'r', byte(hash64(name)))
	if _, had := d.model[name]; !had {
		c.Check(errors.Is(err, os.ErrNotExist), "remove-missing", "removing the missing name %q returned %v", name, err)
		c.Count("missing_removes", 1)
		return
	}
	c.Must(err, "remove-err")
	if take {
		d.prev(name, old, "Take")
	}
	delete(d.model, name)
	c.Count("removes", 1)
	if before > 1 {
		c.Count("collapses", 1)
	}
}

func (d *shardDrv) find(name string) {
	c := d.c
	l, err := d.s.Find(bg, name)
	e, had := d.model[name]
	if !had {
		c.Check(errors.Is(err, os.ErrNotExist), "find-missing", "looking up the missing name %q returned %v, %v", name, l, err)
		c.Count("missing_finds", 1)
		return
	}
	c.Must(err, "find-err")
	c.Check(l.Cid.Equals(e.Cid) && l.Size == e.Tsize, "find-wrong", "looking up %q returned %s (%d), want %s (%d)", name, l.Cid, l.Size, e.Cid, e.Tsize)
	c.Count("finds", 1)
	if d.keep != nil {
		d.keep.link("link from Find", l)
	}
}

// shardListVia enumerates with one of the shard's three ways.
func shardListVia(ctx context.Context, s *hamt.Shard, way int) (string, []*ipld.Link, error) {
	switch way {
	case 0:
		ls, err := s.EnumLinks(ctx)
		return "EnumLinks", ls, err
	case 1:
		var ls []*ipld.Link
		err := s.ForEachLink(ctx, func(l *ipld.Link) error { x := *l; ls = append(ls, &x); return nil })
		return "ForEachLink", ls, err
	default:
		var ls []*ipld.Link
		var err error
		for r := range s.EnumLinksAsync(ctx) {
			if r.Err != nil {
				err = r.Err
				continue
			}
			ls = append(ls, r.Link)
		}
		return "EnumLinksAsync", ls, err
	}
}

func (d *shardDrv) checkAll() {
	how, ls, err := shardListVia(bg, d.s, d.c.R.Intn(3))
	d.c.Must(err, "list-err:"+how)
	compareListing(d.c, how, ls, d.model)
	if d.keep != nil {
		for _, l := range ls {
			d.keep.link("link from "+how, l)
		}
	}
}

func (d *shardDrv) node() ipld.Node {
	nd, err := d.s.Node()
	d.c.Must(err, "node")
	if d.keep != nil {
		d.keep.node("shard node", nd)
		if d.keep.own { // that one is the caller's now
			nd, err = d.s.Node()
			d.c.Must(err, "node")
			d.c.Check(nd.Cid().Equals(d.ref.build(d.model).c), "own-node", "the shard's node changed with the caller's node")
		}
	}
	return nd
}

func (d *shardDrv) reload() {
	c := d.c
	c.Logf("reload")
	nd := d.node()
	if c.R.Chance(0.7) {
		var err error
		nd, err = d.m.Get(bg, nd.Cid())
		c.Must(err, "stored")
	}
	if d.keep != nil && !d.keep.own {
		d.keep.node("node passed to NewHamtFromDag", nd)
	}
	s, err := hamt.NewHamtFromDag(d.m, nd)
	c.Must(err, "fromdag")
	if d.keep != nil && d.keep.own {
		d.keep.node("node passed to NewHamtFromDag", nd)
	}
	d.s = s
	c.Count("reloads", 1)
	d.key = append(d.key, 'l')
}

func (d *shardDrv) presentNames() []string {
	ns := make([]string, 0, len(d.model))
	for n := range d.model {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// step runs one generated operation.
func (d *shardDrv) step(bias float64) {
	c := d.c
	name := c.R.pickStr(d.names)
	present := func() {
		if ns := d.presentNames(); len(ns) > 0 {
			name = c.R.pickStr(ns)
		}
	}
	switch k := c.R.Intn(20); {
	case k < 12:
		if c.R.Chance(bias) {
			if c.R.Chance(0.15) {
				present()
			}
			d.set(name)
		} else {
			if c.R.Chance(0.9) {
				present()
			}
			d.remove(name)
		}
	case k < 16:
		if c.R.Chance(0.5) {
			present()
		}
		d.find(name)
	case k == 16:
		d.checkAll()
	case k == 17:
		c.Logf("Node")
		d.node()
		d.key = append(d.key, 'n')
	case k == 18 && c.R.Chance(0.5):
		d.reload()
	default:
		d.find(name)
	}
}

// flawed stores an encoding of the entries that another, careless
// implementation may have written: some sub-shards hold a single entry, or
// none. It returns its root and its blocks.
func flawed(c *Case, m *memDAG, width int, b bspec, model map[string]rEntry) (ipld.Node, map[string][]byte) {
	r := newRefHAMT(width, b)
	r.store = map[string][]byte{}
	r.flaw = c.R
	root := r.build(model)
	for _, raw := range r.store {
		nd, err := mdag.DecodeProtobuf(raw)
		c.Must(err, "decode")
		nd.SetCidBuilder(b.b)
		c.Must(m.Add(bg, nd), "add")
	}
	nd, err := m.get(root.c)
	c.Must(err, "get")
	c.Logf("a shard of %d entries in %d blocks", len(model), r.nodes)
	if r.nodes > newRefHAMT(width, b).count(model) {
		c.Count("flawed_bases", 1)
	}
	return nd, r.store
}

// foreignBase replaces the empty shard by a loaded, flawed one.
func (d *shardDrv) foreignBase() {
	c := d.c
	for _, n := range separable(d.names, d.width) {
		if c.R.Chance(0.6) {
			d.model[n] = linkEntry(d.nodes[c.R.Intn(len(d.nodes))])
		}
	}
	nd, _ := flawed(c, d.m, d.width, d.b, d.model)
	var err error
	d.s, err = hamt.NewHamtFromDag(d.m, nd)
	c.Must(err, "fromdag")
	d.key = append(d.key, nd.Cid().Hash()[2:10]...)
}

func runC13(c *Case) {
	d := newShardDrv(c, true)
	if c.R.Chance(0.1) {
		d.foreignBase()
	}
	if c.R.Chance(0.05) {
		for _, w := range []int{0, -8, 1, 2, 3, 4, 7, 9, 12, 24, 48, 100, 255, 257, 1023, 2048, 4096, -1 << 62} {
			_, err := hamt.NewShard(d.m, w)
			c.Check(err != nil, "bad-width", "a shard of width %d was created", w)
			c.Count("bad_widths", 1)
		}
	}
	n := c.R.Range(10, 120) + d.large
	bias := 0.7
	for i := 0; i < n; i++ {
		if d.large > 0 && i < d.large {
			bias = 0.95
		} else if c.R.Chance(0.06) {
			bias = pick(c.R, 0.1, 0.3, 0.7, 0.9)
		}
		d.step(bias)
	}
	d.checkAll()
	for _, n := range d.names {
		d.find(n)
	}
	d.reload()
	for _, n := range d.names {
		d.find(n)
	}
	for way := 0; way < 3; way++ {
		how, ls, err := shardListVia(bg, d.s, way)
		c.Must(err, "list-err:"+how)
		compareListing(c, how, ls, d.model)
	}
	c.Max("max_entries", len(d.model))
	c.Count("operations", n)
	key := ""
	if len(d.model) > 0 {
		key = string(d.key)
	}
	c.Eval(key)
	c.State("width_entries", fmt.Sprint(d.width, len(d.model)))
	c.Sample(head(fmt.Sprint(c.trace), 400))
	d.m.checkIntegrity(c)
}

func (d *shardDrv) checkCid(sig string) {
	nd := d.node()
	want := newRefHAMT(d.width, d.b).build(d.model)
	d.c.Check(nd.Cid().Equals(want.c), sig, "node of %d entries at width %d is %s, the canonical encoding is %s", len(d.model), d.width, nd.Cid(), want.c)
	sz, err := nd.Size()
	d.c.Must(err, "size")
	d.c.Check(sz == want.tsize, sig+"-size", "node reports a total size of %d, want %d", sz, want.tsize)
	d.c.Count("cid_checks", 1)
}

func (d *shardDrv) checkBlocks() {
	ref := newRefHAMT(d.width, d.b)
	ref.store = map[string][]byte{}
	root := ref.build(d.model)
	for k, want := range ref.store {
		d.m.mu.Lock()
		got, ok := d.m.blocks[k]
		d.m.mu.Unlock()
		d.c.Check(ok, "block-missing", "a block of the encoding of %s is not in the store", root.c)
		d.c.Check(string(got) == string(want), "block-bytes", "a stored block differs from the canonical encoding")
		d.c.Count("blocks_checked", 1)
	}
}

func runC14(c *Case) {
	d := newShardDrv(c, false)
	n := c.R.Range(10, 100) + d.large
	bias := 0.7
	every := pick(c.R, 1, 1, 3, 10, 1000) // how often the node is taken
	if d.large > 0 {
		every = pick(c.R, 40, 1000)
	}
	removed := false
	for i := 0; i < n; i++ {
		if d.large > 0 && i < d.large {
			bias = 0.95
		} else if c.R.Chance(0.06) {
			bias = pick(c.R, 0.1, 0.3, 0.7, 0.9)
		}
		before := len(d.model)
		d.step(bias)
		removed = removed || len(d.model) < before
		if i%every == 0 {
			d.checkCid("canonical")
		}
		if c.R.Chance(0.04) {
			d.reload()
		}
	}
	d.checkCid("canonical")
	d.checkBlocks()
	// the same entries by another route
	o, err := hamt.NewShard(d.m, d.width)
	c.Must(err, "newshard")
	o.SetCidBuilder(d.b.b)
	ns := d.presentNames()
	c.R.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	for _, n := range ns {
		e := d.model[n]
		c.Must(o.SetLink(bg, n, &ipld.Link{Cid: e.Cid, Size: e.Tsize}), "setlink")
	}
	a, err := d.s.Node()
	c.Must(err, "node")
	b, err := o.Node()
	c.Must(err, "node")
	c.Check(a.Cid().Equals(b.Cid()), "routes", "the same %d entries give %s and %s", len(ns), a.Cid(), b.Cid())
	c.Count("two_routes", 1)
	// empty it again
	if c.R.Chance(0.3) {
		for _, n := range ns {
			d.remove(n)
			if c.R.Chance(0.2) {
				d.checkCid("canonical-shrinking")
			}
		}
		d.checkCid("canonical-empty")
	}
	d.m.checkIntegrity(c)
	key := ""
	if removed {
		key = string(d.key)
	}
	c.Eval(key)
	c.Count("operations", n)
	c.State("width_entries", fmt.Sprint(d.width, len(d.model)))
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

// countBlocks is the number of shard blocks below (and including) a root.
func (r *refHAMT) blocks(model map[string]rEntry) map[string][]byte {
	r.store = map[string][]byte{}
	r.build(model)
	return r.store
}

func runC15(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	m.yield = r.Chance(0.5)
	width := pick(r, 8, 8, 8, 16, 32, 64, 256)
	b := pick(r, builders...)
	basic := r.Chance(0.1)
	pool := r.Range(1, 120)
	if r.Chance(0.02) { // more sub-shards than the enumeration has workers
		pool = r.Range(300, 1000)
		c.Count("large_directories", 1)
	}
	names := separable(genNames(r, pool, width, false), width)
	nodes := genEntryNodes(c, m, 4)
	model := map[string]rEntry{}
	setShardWidth(width)
	setShardingSize(0)
	s, err := hamt.NewShard(m, width)
	c.Must(err, "newshard")
	s.SetCidBuilder(b.b)
	bd := uio.NewDirectory(m)
	for _, n := range names {
		if r.Chance(0.1) {
			continue
		}
		nd := nodes[r.Intn(len(nodes))]
		if basic {
			c.Must(bd.AddChild(bg, n, nd), "add")
		} else {
			c.Must(s.Set(bg, n, nd), "set")
		}
		model[n] = linkEntry(nd)
	}
	var root ipld.Node
	if basic {
		root, err = bd.GetNode()
	} else {
		root, err = s.Node()
	}
	c.Must(err, "node")
	c.Must(m.Add(bg, root), "add")
	blocks := 1
	var subs []string
	if !basic {
		st := newRefHAMT(width, b).blocks(model)
		if r.Chance(0.15) {
			root, st = flawed(c, m, width, b, model)
		}
		blocks = len(st)
		for k := range st {
			if k != string(root.Cid().Hash()) {
				subs = append(subs, k)
			}
		}
		sort.Strings(subs)
	}
	c.Max("max_blocks", blocks)
	c.Logf("width=%d entries=%d blocks=%d basic=%v", width, len(model), blocks, basic)

	rounds := r.Range(3, 8)
	for round := 0; round < rounds; round++ {
		nd, err := m.get(root.Cid())
		c.Must(err, "get")
		want := cloneModel(model)
		var dir uio.Directory
		var sh *hamt.Shard
		viaShard := !basic && r.Chance(0.5)
		if viaShard {
			sh, err = hamt.NewHamtFromDag(m, nd)
		} else {
			dir, err = uio.NewDirectoryFromNode(m, nd)
		}
		c.Must(err, "load")
		// load or modify part of it in memory
		if r.Chance(0.4) {
			for i := r.Intn(10); i > 0; i-- {
				n := r.pickStr(names)
				if viaShard {
					sh.Find(bg, n)
				} else {
					dir.Find(bg, n)
				}
			}
		}
		if r.Chance(0.4) {
			for i := r.Intn(10); i > 0; i-- {
				n := r.pickStr(names)
				x := nodes[r.Intn(len(nodes))]
				if r.Chance(0.5) {
					if viaShard {
						err = sh.Set(bg, n, x)
					} else {
						err = dir.AddChild(bg, n, x)
					}
					c.Must(err, "modify")
					want[n] = linkEntry(x)
				} else {
					if viaShard {
						err = sh.Remove(bg, n)
					} else {
						err = dir.RemoveChild(bg, n)
					}
					if _, ok := want[n]; ok {
						c.Must(err, "modify")
						delete(want, n)
					}
				}
				c.Count("modified_in_memory", 1)
			}
		}
		enum := func(ctx context.Context, way int) (string, []*ipld.Link, error) {
			if viaShard {
				return shardListVia(ctx, sh, way)
			}
			return listVia(ctx, dir, way)
		}
		if r.Chance(0.3) {
			d := time.Duration(r.Intn(300)) * time.Microsecond
			dr := newRng(r.Uint64())
			m.mu.Lock()
			var dmu sync.Mutex
			m.delay = func(Op) time.Duration {
				dmu.Lock()
				defer dmu.Unlock()
				return time.Duration(dr.Intn(int(d) + 1))
			}
			m.mu.Unlock()
		}
		way := r.Intn(3)
		switch mode := r.Intn(8); mode {
		case 0, 1: // healthy, possibly several at once
			k := 1
			if r.Chance(0.6) && way != 1 {
				k = r.Range(2, 4)
			}
			type res struct {
				how string
				ls  []*ipld.Link
				err error
			}
			out := make([]res, k)
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				w := way
				if k > 1 {
					w = pick(r, 0, 2)
				}
				wg.Add(1)
				go func(i, w int) {
					defer wg.Done()
					var x res
					x.how, x.ls, x.err = enum(bg, w)
					out[i] = x
				}(i, w)
			}
			wg.Wait()
			for _, x := range out {
				c.Must(x.err, "list-err:"+x.how)
				compareListing(c, x.how, x.ls, want)
			}
			c.Count("complete", k)
			if k > 1 {
				c.Count("concurrent", 1)
			}
		case 2: // callback error
			stop := errors.New("zverif: stop")
			after := r.Intn(len(want) + 1)
			n := 0
			f := func(l *ipld.Link) error {
				if n == after {
					return stop
				}
				n++
				return nil
			}
			if viaShard {
				err = sh.ForEachLink(bg, f)
			} else {
				err = dir.ForEachLink(bg, f)
			}
			if after < len(want) {
				c.Check(errors.Is(err, stop), "callback-error", "the callback's error was lost: %v", err)
				c.Count("callback_errors", 1)
			} else {
				c.Must(err, "foreach")
				c.Check(n == len(want), "list-missing:ForEachLink", "ForEachLink made %d calls for %d entries", n, len(want))
			}
		case 3: // slow consumer cancelling part way, with or without draining
			ctx, cancel := context.WithCancel(bg)
			var ch <-chan ft.LinkResult
			if viaShard {
				ch = sh.EnumLinksAsync(ctx)
			} else {
				ch = dir.EnumLinksAsync(ctx)
			}
			take := r.Intn(len(want) + 2)
			var got []*ipld.Link
			closed := false
			for i := 0; i < take; i++ {
				x, ok := <-ch
				if !ok {
					closed = true
					break
				}
				c.Must(x.Err, "list-err:async")
				got = append(got, x.Link)
				if r.Chance(0.1) {
					runtime.Gosched()
				}
			}
			cancel()
			if r.Chance(0.5) {
				for x := range ch {
					if x.Err == nil {
						got = append(got, x.Link)
					}
				}
				c.Count("async_closed_on_cancel", 1)
			}
			subsetListing(c, "EnumLinksAsync", got, want)
			if closed {
				compareListing(c, "EnumLinksAsync", got, want)
			}
			c.Count("cancelled", 1)
		default: // faults
			ctx, cancel := context.WithCancel(bg)
			fired, cancelled := false, false
			var fmu sync.Mutex
			missing := map[string]bool{}
			pos := -1
			kind := pick(r, "missing", "missing", "fail", "cancel", "precancel")
			if kind == "missing" && len(subs) > 0 {
				for i := r.Range(1, 3); i > 0; i-- {
					missing[subs[r.Intn(len(subs))]] = true
				}
			} else {
				pos = r.Intn(blocks + 1)
			}
			k := 0
			ferr := genStoreFault(c, r)
			m.setFault(func(op Op) error {
				fmu.Lock()
				defer fmu.Unlock()
				k++
				if missing[string(op.Cid.Hash())] {
					fired = true
					return errMissing
				}
				if kind == "fail" && k-1 == pos {
					fired = true
					return ferr
				}
				if kind == "cancel" && k-1 == pos {
					fired, cancelled = true, true
					cancel()
					return context.Canceled
				}
				return nil
			})
			if kind == "precancel" {
				cancel()
				fired, cancelled = true, true
			}
			how, ls, err := enum(ctx, way)
			m.setFault(nil)
			cancel()
			c.Logf("round %d: %s %s shard=%v pos=%d missing=%d -> %d links, %v (fired=%v)", round, how, kind, viaShard, pos, len(missing), len(ls), err, fired)
			subsetListing(c, how, ls, want)
			if err == nil && len(ls) != len(want) {
				c.Check(how == "EnumLinksAsync" && cancelled, "partial-silent:"+how, "%s (%s fault) returned %d of %d entries and no error", how, kind, len(ls), len(want))
				c.Count("async_closed_on_cancel", 1)
			}
			if err != nil {
				c.Check(fired, "error-without-fault:"+how, "%s failed without a fault: %v", how, err)
				c.Count("incomplete_with_error", 1)
			}
			if kind == "missing" && fired {
				c.Count("missing_blocks", 1)
				c.Check(err != nil, "missing-silent:"+how, "%s with a missing sub-shard returned no error", how)
			}
			if cancelled {
				c.Count("cancelled", 1)
			}
			// the store works again
			m.mu.Lock()
			m.delay = nil
			m.mu.Unlock()
			how, ls, err = enum(bg, r.Intn(3))
			c.Must(err, "list-err-healed:"+how)
			compareListing(c, how+" after a failed one", ls, want)
			c.Count("healed", 1)
		}
		m.mu.Lock()
		m.delay = nil
		m.mu.Unlock()
		key := ""
		if blocks > 1 {
			key = fmt.Sprintf("%s|%d|%d|%v", root.Cid(), way, round, viaShard)
		}
		c.Eval(key)
	}
	for i := 0; len(subs) > 0 && i < 2; i++ { // a sub-shard that is not one
		victim := subs[r.Intn(len(subs))]
		bad, err := m.rewire(root.Cid(), victim, genForeign(c, m))
		c.Must(err, "rewire")
		nd, err := m.get(bad)
		c.Must(err, "get")
		var how string
		var ls []*ipld.Link
		way := r.Intn(3)
		if r.Chance(0.5) {
			sh, err := hamt.NewHamtFromDag(m, nd)
			c.Must(err, "load")
			how, ls, err = shardListVia(bg, sh, way)
			c.Check(err != nil, "foreign-silent:"+how, "%s over a link to something that is not a shard returned no error", how)
		} else {
			dir, err := uio.NewDirectoryFromNode(m, nd)
			c.Must(err, "load")
			how, ls, err = listVia(bg, dir, way)
			c.Check(err != nil, "foreign-silent:"+how, "%s over a link to something that is not a shard returned no error", how)
		}
		subsetListing(c, how, ls, model)
		c.Count("foreign_subshards", 1)
		c.Eval(fmt.Sprintf("%s|foreign|%s|%d", bad, victim, way))
	}
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

// subsetListing checks that a possibly partial listing holds no wrong entry.
func subsetListing(c *Case, how string, got []*ipld.Link, model map[string]rEntry) {
	seen := map[string]bool{}
	for _, l := range got {
		e, ok := model[l.Name]
		c.Check(ok, "list-extra:"+how, "%s lists %q, which is not an entry", how, l.Name)
		c.Check(!seen[l.Name], "list-dup:"+how, "%s lists %q twice", how, l.Name)
		seen[l.Name] = true
		c.Check(l.Cid.Equals(e.Cid) && l.Size == e.Tsize, "list-wrong:"+how, "%s lists %q as %s (%d)", how, l.Name, l.Cid, l.Size)
	}
	c.Count("entries_listed", len(got))
}
