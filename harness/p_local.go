package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
)

func init() {
	register(&Prop{
		ID: "C26", Quick: 16000, Thorough: 100000,
		Rule: "a case runs one kind of access (range reads, whole reads, overwrites, sharded lookups, updates and listings, path resolution, trickle append, opening) on a generated DAG and compares the set of blocks the store was asked for, collected after the store went quiet, with the set an independent walk of the stored blocks allows; non-trivial = at least one block was fetched and at least one was not, keyed by root and access",
		Assumptions: []string{fmt.Sprintf("look-ahead of a range read is bounded by %d blocks per tree level", lookAhead),
			"blocks occurring several times in a file count with all their positions"},
		Required: []string{"ranges", "whole_reads", "hamt_ops", "resolves", "appends", "opens", "fetched", "not_fetched", "wide_files", "overwrites", "listings", "nodes_taken", "unmeasured_updates", "measured_updates", "large_measured"},
		Run:      runC26,
	})
}

const lookAhead = 16

// settle waits until no store operation or prefetch is under way.
func (m *memDAG) settle() {
	for {
		busy := false
		for i, g := range goroutines() {
			if i > 0 && (strings.Contains(g.stack, "go-ipld-format.") || strings.Contains(g.stack, "(*memDAG)")) {
				busy = true
				break
			}
		}
		if !busy {
			return
		}
		runtime.Gosched()
		time.Sleep(20 * time.Microsecond)
	}
}

func (m *memDAG) takeLog() []string {
	m.settle()
	m.mu.Lock()
	defer m.mu.Unlock()
	l := m.getLog
	m.getLog, m.getCount = nil, map[string]int{}
	return l
}

// occ is one position of a block in a file.
type occ struct {
	start, end int64
	depth      int
	leaf       bool
}

func fileMap(m *memDAG, root cid.Cid) (occs map[string][]occ, depth, width int, err error) {
	occs = map[string][]occ{}
	t, err := loadTree(m, root, bspec{})
	if err != nil {
		return nil, 0, 0, err
	}
	var rec func(t *mtree, at int64, d int) int64
	rec = func(t *mtree, at int64, d int) int64 {
		end := at + int64(t.size())
		if d > 0 {
			occs[string(t.c.Hash())] = append(occs[string(t.c.Hash())], occ{at, end, d, len(t.kids) == 0})
		}
		if d > depth {
			depth = d
		}
		if len(t.kids) > width {
			width = len(t.kids)
		}
		for _, k := range t.kids {
			at = rec(k, at, d+1)
		}
		return end
	}
	rec(t, 0, 0)
	return
}

func runC26(c *Case) {
	if c.R.Chance(0.003) {
		localMeasure(c)
		return
	}
	switch k := c.R.Intn(12); {
	case k < 3:
		localRanges(c)
	case k < 5:
		localWhole(c)
	case k < 8:
		localShard(c)
	case k < 9:
		localAppend(c)
	case k < 11:
		localWrite(c)
	default:
		localOpen(c)
	}
}

func localFile(c *Case, m *memDAG) (ipld.Node, []byte, string) {
	r := c.R
	if r.Chance(0.35) { // wide nodes show unbounded look-ahead
		s := genImp(r)
		s.maxlinks = pick(r, 60, 100, 174)
		s.ch = chunkSpec{size: pick(r, 4, 8, 16)}
		d := r.Bytes(s.ch.size * r.Range(40, 500))
		nd, err := s.importBytes(m, d)
		c.Must(err, "import")
		return nd, d, s.String()
	}
	return genFile(c, m, 6000)
}

func localRanges(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	nd, data, desc := localFile(c, m)
	size := int64(len(data))
	occs, depth, width, err := fileMap(m, nd.Cid())
	c.Must(err, "map")
	if width > 50 {
		c.Count("wide_files", 1)
	}
	nd, err = m.get(nd.Cid())
	c.Must(err, "get")
	c.Logf("%s, %d bytes, %d distinct blocks below the root, depth %d", desc, size, len(occs), depth)
	m.resetLog()
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "open")
	defer dr.Close()
	c.Check(len(m.takeLog()) == 0, "open", "opening a reader fetched blocks")
	for k := r.Range(1, 5); k > 0; k-- {
		off := int64(r.Intn(int(size) + 1))
		n := int64(r.Intn(pick(r, 1, 10, 100, 1000) + 1))
		switch r.Intn(4) {
		case 0: // exact block boundaries
			for _, os := range occs {
				o := os[r.Intn(len(os))]
				off = o.start
				if r.Chance(0.5) {
					n = o.end - o.start
				}
				break
			}
		case 1:
			off = max(0, size-int64(r.Intn(20)))
		}
		_, err := dr.Seek(off, io.SeekStart)
		c.Must(err, "seek")
		b := make([]byte, n)
		got, err := io.ReadFull(dr, b)
		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
			c.Must(err, "read")
		}
		c.Check(bytes.Equal(b[:got], data[off:min(off+n, size)]), "bytes", "wrong bytes at %d", off)
		log := m.takeLog()
		// the range, at least one byte, inside the file
		lo, hi := min(off, size-1), min(off+max(n, 1), size)
		ahead := 0
		for _, hsh := range log {
			os, ok := occs[hsh]
			c.Check(ok, "foreign", "a block that is not below the root was fetched")
			need, after := false, false
			for _, o := range os {
				if o.start == o.end || o.start < hi && o.end > lo {
					need = true
				}
				if o.start >= hi {
					after = true
				}
			}
			if need {
				continue
			}
			c.Check(after, "before", "reading [%d,%d) of %d bytes fetched a block holding %v, before the range", off, off+n, size, os)
			ahead++
		}
		c.Max("look_ahead", ahead)
		c.Max("look_ahead_per_level", (ahead+depth-1)/max(depth, 1))
		c.Check(ahead <= lookAhead*(depth+1), "look-ahead", "reading [%d,%d) of %d bytes fetched %d blocks after the range (depth %d)", off, off+n, size, ahead, depth)
		c.Logf("[%d,%d): fetched %d, %d ahead", off, off+n, len(log), ahead)
		c.Count("ranges", 1)
		c.Count("fetched", len(log))
		c.Count("not_fetched", max(0, len(occs)-len(log)))
		key := ""
		if len(log) > 0 && len(log) < len(occs) {
			key = fmt.Sprint(nd.Cid(), off, n)
		}
		c.Eval(key)
	}
	c.Sample(fmt.Sprint(c.trace))
}

func localWhole(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	nd, data, desc := localFile(c, m)
	occs, _, width, err := fileMap(m, nd.Cid())
	c.Must(err, "map")
	if width > 50 {
		c.Count("wide_files", 1)
	}
	nd, err = m.get(nd.Cid())
	c.Must(err, "get")
	m.resetLog()
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "open")
	defer dr.Close()
	var got []byte
	how := r.Intn(3)
	for {
		if how == 1 || how == 2 && r.Chance(0.1) {
			var w bytes.Buffer
			_, err = dr.WriteTo(&w)
			c.Must(err, "writeto")
			got = append(got, w.Bytes()...)
			break
		}
		b := make([]byte, r.Range(1, pick(r, 1, 20, 1000)))
		n, err := dr.Read(b)
		got = append(got, b[:n]...)
		if err == io.EOF {
			break
		}
		c.Must(err, "read")
	}
	c.Check(bytes.Equal(got, data), "bytes", "%s", diffBytes(got, data))
	log := m.takeLog()
	count := map[string]int{}
	for _, hsh := range log {
		count[hsh]++
	}
	links := 0
	for hsh, n := range count {
		c.Check(n <= len(occs[hsh]), "refetch", "reading %s once fetched a block linked %d times %d times", desc, len(occs[hsh]), n)
		links += n
	}
	c.Count("whole_reads", 1)
	c.Count("fetched", links)
	key := ""
	if len(log) > 0 {
		key = fmt.Sprint(nd.Cid(), how)
	}
	c.Eval(key)
}

// shardPath returns the blocks on a name's path below the root.
func shardPath(m *memDAG, root cid.Cid, width int, name string) (map[string]bool, int) {
	ref := newRefHAMT(width, bspec{})
	hv := refMurmur64([]byte(name))
	out := map[string]bool{}
	for depth := 0; ; depth++ {
		raw, ok := m.block(root)
		if !ok {
			panic("zverif: shard missing")
		}
		links, _, err := parseDagPB(raw)
		if err != nil {
			panic(err)
		}
		slot, ok := ref.slot(hv, depth)
		if !ok {
			return out, depth
		}
		pre := fmt.Sprintf("%0*X", ref.pad, slot)
		next := cid.Undef
		for _, l := range links {
			if l.Name == pre {
				next = l.Cid
			}
		}
		if !next.Defined() {
			return out, depth
		}
		out[string(next.Hash())] = true
		root = next
	}
}

func localShard(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	width := pick(r, 8, 8, 16, 32, 256)
	b := pick(r, builders...)
	setShardWidth(width)
	setShardingSize(0)
	names := separable(genNames(r, r.Range(5, 80), width, false), width)
	sort.Strings(names)
	nodes := genEntryNodes(c, m, 6)
	s, err := hamt.NewShard(m, width)
	c.Must(err, "newshard")
	s.SetCidBuilder(b.b)
	in := map[string]int{}
	for _, n := range names {
		if r.Chance(0.75) {
			in[n] = r.Intn(len(nodes))
			c.Must(s.Set(bg, n, nodes[in[n]]), "set")
		}
	}
	root, err := s.Node()
	c.Must(err, "node")
	c.Logf("shard width %d, %d entries", width, len(in))
	all := map[string]bool{}
	var walk func(cid.Cid)
	walk = func(k cid.Cid) {
		raw, _ := m.block(k)
		links, _, err := parseDagPB(raw)
		c.Must(err, "parse")
		for _, l := range links {
			if len(l.Name) == len(fmt.Sprintf("%X", width-1)) {
				all[string(l.Cid.Hash())] = true
				walk(l.Cid)
			}
		}
	}
	walk(root.Cid())
	root, err = m.get(root.Cid())
	c.Must(err, "get")

	judge := func(op, name string, entry cid.Cid) {
		path, depth := shardPath(m, root.Cid(), width, name)
		log := m.takeLog()
		extra := 0
		for _, hsh := range log {
			if path[hsh] {
				continue
			}
			if entry.Defined() && hsh == string(entry.Hash()) {
				extra++
				continue
			}
			what := "a block outside the shard"
			if all[hsh] {
				what = "a shard off the name's path"
			}
			c.Fail("off-path:"+op, "%s of %q (path of %d sub-shards) fetched %s", op, name, len(path), what)
		}
		// An update may look the name up before it changes the shard.
		most := len(path)
		if op != "Find" {
			most *= 2
		}
		c.Check(len(log)-extra <= most && extra <= 1, "refetch:"+op, "%s of %q fetched %d blocks, its path has %d", op, name, len(log), len(path))
		c.Logf("%s %q: %d fetched of %d on the path (depth %d), %d shards in all", op, name, len(log), len(path), depth, len(all))
		c.Count("fetched", len(log))
		c.Count("not_fetched", len(all)-len(path))
		c.Max("path_shards", len(path))
		key := ""
		if len(log) > 0 && len(all) > len(path) {
			key = fmt.Sprint(root.Cid(), op, name)
		}
		c.Eval(key)
	}

	// take has the node of the whole structure made, which needs no fetch.
	take := func(node func() (ipld.Node, error)) {
		nd, err := node()
		c.Must(err, "node")
		c.Check(len(m.takeLog()) == 0, "node-fetches", "taking the node of the directory fetched blocks")
		c.Count("nodes_taken", 1)
		_ = nd
	}
	kind := r.Intn(4)
	m.resetLog()
	switch kind {
	case 3: // listing
		d, err := uio.NewDirectoryFromNode(m, root)
		c.Must(err, "fromnode")
		how := pick(r, "Links", "ForEachLink", "EnumLinksAsync")
		n := 0
		switch how {
		case "Links":
			l, err := d.Links(bg)
			c.Must(err, how)
			n = len(l)
		case "ForEachLink":
			c.Must(d.ForEachLink(bg, func(*ipld.Link) error { n++; return nil }), how)
		default:
			for x := range d.EnumLinksAsync(bg) {
				c.Must(x.Err, how)
				n++
			}
		}
		c.Check(n == len(in), "list", "%s gave %d of %d entries", how, n, len(in))
		seen := map[string]bool{}
		for _, hsh := range m.takeLog() {
			c.Check(all[hsh], "list-off-shard", "%s fetched a block that is no sub-shard", how)
			c.Check(!seen[hsh], "list-refetch", "%s fetched a sub-shard twice", how)
			seen[hsh] = true
		}
		c.Count("listings", 1)
		c.Count("fetched", len(seen))
		key := ""
		if len(seen) > 0 {
			key = fmt.Sprint(root.Cid(), how)
		}
		c.Eval(key)
	case 0: // the directory
		d, err := uio.NewDirectoryFromNode(m, root)
		c.Must(err, "fromnode")
		c.Check(len(m.takeLog()) == 0, "open", "loading a directory fetched blocks")
		// With a threshold, a directory that did not shrink since it was
		// loaded has no reason to look at entries other than the one named.
		size, net := 0, 0
		lsize := func(n string, x int) int { return len(n) + nodes[x].Cid().ByteLen() }
		for n, x := range in {
			size += lsize(n, x)
		}
		if r.Chance(0.6) && size > 0 {
			setShardingSize(r.Range(1, size))
			c.Logf("threshold %d, size %d", uio.HAMTShardingSize, size)
		}
		for k := r.Range(1, 8); k > 0; k-- {
			n := r.pickStr(names)
			x, has := in[n]
			op, nx := r.Intn(3), r.Intn(len(nodes))
			if uio.HAMTShardingSize > 0 && op > 0 {
				if op == 2 && r.Chance(0.6) {
					op = 1
				}
				change := 0
				if has {
					change -= lsize(n, x)
				}
				if op == 1 {
					change += lsize(n, nx)
				}
				if size+net+change < uio.HAMTShardingSize {
					continue // becomes basic
				}
				net += change
				if net < 0 { // may have to measure the whole directory
					if op == 1 {
						c.Must(d.AddChild(bg, n, nodes[nx]), "add")
						in[n] = nx
					} else {
						err := d.RemoveChild(bg, n)
						c.Check((err == nil) == has, "remove", "%v", err)
						delete(in, n)
					}
					for _, hsh := range m.takeLog() {
						c.Check(all[hsh], "measure-off-shard", "measuring the directory fetched a block that is no sub-shard")
					}
					c.Count("measured_updates", 1)
					continue
				}
				c.Count("unmeasured_updates", 1)
			}
			switch op {
			case 0:
				nd, err := d.Find(bg, n)
				var e cid.Cid
				if has {
					c.Must(err, "find")
					e = nd.Cid()
				}
				judge("Find", n, e)
			case 1:
				c.Must(d.AddChild(bg, n, nodes[nx]), "add")
				in[n] = nx
				judge("AddChild", n, cid.Undef)
			default:
				err := d.RemoveChild(bg, n)
				c.Check((err == nil) == has, "remove", "%v", err)
				delete(in, n)
				judge("RemoveChild", n, cid.Undef)
			}
			c.Count("hamt_ops", 1)
		}
		take(d.GetNode)
	case 1: // the shard itself
		s, err := hamt.NewHamtFromDag(m, root)
		c.Must(err, "fromdag")
		c.Check(len(m.takeLog()) == 0, "open", "loading a shard fetched blocks")
		for k := r.Range(1, 8); k > 0; k-- {
			n := r.pickStr(names)
			_, has := in[n]
			x := r.Intn(len(nodes))
			op := pick(r, "Find", "Set", "SetLink", "Swap", "Remove", "Take")
			switch op {
			case "Find":
				_, err = s.Find(bg, n)
			case "Set":
				err, has = s.Set(bg, n, nodes[x]), true
				in[n] = x
			case "SetLink":
				l, _ := ipld.MakeLink(nodes[x])
				err, has = s.SetLink(bg, n, l), true
				in[n] = x
			case "Swap":
				_, err = s.Swap(bg, n, nodes[x])
				has = true
				in[n] = x
			case "Remove":
				err = s.Remove(bg, n)
				delete(in, n)
			case "Take":
				_, err = s.Take(bg, n)
				if !has { // absent names give no link
					err, has = nil, true
				}
				delete(in, n)
			}
			c.Check((err == nil) == has, "op", "%s %q: %v", op, n, err)
			judge(op, n, cid.Undef)
			c.Count("hamt_ops", 1)
		}
		take(s.Node)
	default:
		n := r.pickStr(names)
		_, has := in[n]
		_, _, err := uio.ResolveUnixfsOnce(bg, m, root, []string{n, "x"})
		c.Check((err == nil) == has, "resolve", "%q: %v", n, err)
		judge("ResolveUnixfsOnce", n, cid.Undef)
		c.Count("resolves", 1)
	}
	c.Sample(fmt.Sprint(c.trace))
}

// localMeasure: whether a large directory that shrank is still too large to be
// basic is known after looking at a part of it.
func localMeasure(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	setShardWidth(pick(r, 8, 16))
	setShardingSize(0)
	b := pick(r, builders[:6]...)
	s, err := hamt.NewShard(m, uio.DefaultShardWidth)
	c.Must(err, "newshard")
	s.SetCidBuilder(b.b)
	nd := mdag.NewRawNode(r.Bytes(5))
	n := r.Range(2500, 4000)
	for i := 0; i < n; i++ {
		c.Must(s.Set(bg, fmt.Sprintf("entry-%d", i), nd), "set")
	}
	root, err := s.Node()
	c.Must(err, "node")
	a := 0
	m.mu.Lock()
	a = len(m.blocks)
	m.mu.Unlock()
	root, err = m.get(root.Cid())
	c.Must(err, "get")
	d, err := uio.NewDirectoryFromNode(m, root)
	c.Must(err, "fromnode")
	setShardingSize(r.Range(1, 500))
	m.resetLog()
	name := fmt.Sprintf("entry-%d", r.Intn(n))
	c.Must(d.RemoveChild(bg, name), "remove")
	got := len(m.takeLog())
	c.Check(got < a/2, "measured-all", "removing one of %d entries, with a threshold of %d bytes, fetched %d of about %d blocks", n, uio.HAMTShardingSize, got, a)
	c.Max("measured_blocks", got)
	c.Count("large_measured", 1)
	c.Eval(fmt.Sprint("measure", root.Cid(), name))
}

func localAppend(c *Case) {
	r := c.R
	m := newMemDAG()
	s := genImp(r)
	s.trickle = true
	s.maxlinks = pick(r, 2, 2, 3, 4, 5, 8, 30)
	d := r.Bytes(s.genLen(r, 300))
	nd, err := s.importBytes(m, d)
	c.Must(err, "import")
	t, err := loadTree(m, nd.Cid(), s.b)
	c.Must(err, "load")
	edge := map[string]bool{}
	for x := t; len(x.kids) > 0; {
		x = x.kids[len(x.kids)-1]
		edge[string(x.c.Hash())] = true
	}
	base, err := m.get(nd.Cid())
	c.Must(err, "get")
	m.resetLog()
	p := s.params(m)
	db, err := p.New(s.ch.splitter(bytes.NewReader(r.Bytes(s.genLen(r, 60)))))
	c.Must(err, "helper")
	_, err = trickle.Append(bg, base, db)
	c.Must(err, "append")
	log := m.takeLog()
	for _, hsh := range log {
		c.Check(edge[hsh], "append-off-edge", "appending to %s (%d bytes) fetched a block that is not on the right edge", s, len(d))
	}
	c.Check(len(log) <= len(edge), "append-refetch", "appending fetched %d blocks, the right edge has %d", len(log), len(edge))
	c.Count("appends", 1)
	c.Count("fetched", len(log))
	c.Max("edge", len(edge))
	key := ""
	if len(log) > 0 {
		key = fmt.Sprint(nd.Cid(), len(d))
	}
	c.Eval(key)
}

// localWrite: overwriting a range through a modifier needs the nodes above that
// range only, extending the file those on its right edge.
func localWrite(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	setLinksPerBlock(pick(r, 2, 3, 5, 8, 174))
	nd, data, desc := localFile(c, m)
	size := int64(len(data))
	occs, _, _, err := fileMap(m, nd.Cid())
	c.Must(err, "map")
	edge := map[string]bool{}
	t, err := loadTree(m, nd.Cid(), bspec{})
	c.Must(err, "load")
	for x := t; len(x.kids) > 0; {
		x = x.kids[len(x.kids)-1]
		edge[string(x.c.Hash())] = true
	}
	nd, err = m.get(nd.Cid())
	c.Must(err, "get")
	m.resetLog()
	dm, err := mod.NewDagModifier(bg, nd, m, chunkSpec{size: pick(r, 8, 16, 100)}.gen())
	c.Must(err, "open")
	c.Check(len(m.takeLog()) == 0, "open-modifier", "opening a modifier fetched blocks")
	off := int64(r.Intn(int(size) + 1))
	b := r.Bytes(pick(r, 1, 2, 10, 50, 200))
	if r.Chance(0.7) && off+int64(len(b)) > size && size > 0 {
		off = int64(r.Intn(int(size)))
		if n := size - off; int64(len(b)) > n {
			b = b[:n]
		}
	}
	end := off + int64(len(b))
	m.mu.Lock()
	m.added, m.addCids = map[string]bool{}, nil
	m.mu.Unlock()
	_, err = dm.WriteAt(b, off)
	c.Must(err, "writeat")
	c.Must(dm.Sync(), "sync")
	c.Logf("%s: WriteAt(%d bytes, %d) of %d", desc, len(b), off, size)
	log := m.takeLog()
	stored := map[string]bool{} // by this write; it may look at those again
	m.mu.Lock()
	for _, k := range m.addCids {
		stored[string(k.Hash())] = true
	}
	m.mu.Unlock()
	used := map[string]bool{}
	needed := 0
	for k, os := range occs {
		for _, o := range os {
			if o.start < end && o.end > off {
				used[k] = true
				needed++
			}
		}
	}
	fetched := 0
	for _, hsh := range log {
		if stored[hsh] && (end > size || occs[hsh] == nil) || hsh == string(nd.Cid().Hash()) {
			continue
		}
		fetched++
		if used[hsh] || end > size && edge[hsh] {
			continue
		}
		c.Fail("write-off-range", "overwriting [%d,%d) of %d bytes fetched a block that holds none of it", off, end, size)
	}
	c.Check(fetched <= needed+2*len(edge), "write-refetch", "overwriting [%d,%d) of %d bytes fetched %d blocks, %d hold the range", off, end, size, fetched, needed)
	c.Count("overwrites", 1)
	c.Count("fetched", fetched)
	c.Count("not_fetched", max(0, len(occs)-needed))
	key := ""
	if fetched > 0 && needed < len(occs) {
		key = fmt.Sprint(nd.Cid(), off, len(b))
	}
	c.Eval(key)
}

func localOpen(c *Case) {
	r := c.R
	m := newMemDAG()
	var nd ipld.Node
	meta := false
	if r.Chance(0.5) {
		var err error
		nd, _, _ = genFile(c, m, 3000)
		if _, ok := nd.(*mdag.ProtoNode); ok && r.Chance(0.3) {
			nd, meta = wrapMetadata(c, m, nd), true
		}
		nd, err = m.get(nd.Cid())
		c.Must(err, "get")
		m.resetLog()
		dr, err := uio.NewDagReader(bg, nd, m)
		c.Must(err, "open")
		_ = dr.Size()
		log := m.takeLog()
		want := 0
		if meta {
			want = 1
		}
		c.Check(len(log) <= want, "open", "opening a reader fetched %d blocks (metadata %v)", len(log), meta)
		dr.Close()
	} else {
		t := genDirTree(c, m, 1, 12)
		var err error
		nd, err = m.get(t.nd.Cid())
		c.Must(err, "get")
		if t.shard {
			// a threshold must not make loading enumerate
			setShardingSize(pick(r, 0, 100, 262144))
		}
		m.resetLog()
		_, err = uio.NewDirectoryFromNode(m, nd)
		c.Must(err, "fromnode")
		c.Check(len(m.takeLog()) == 0, "open-dir", "loading a directory fetched blocks")
	}
	if !meta {
		m.resetLog()
		f, err := unixfile.NewUnixfsFile(bg, m, nd)
		c.Must(err, "file")
		c.Check(len(m.takeLog()) == 0, "open-tree", "opening a file tree fetched blocks")
		f.Close()
	}
	c.Count("opens", 1)
	c.Eval(nd.Cid().String())
}
