package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"runtime"
	"sync"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
)

func init() {
	register(&Prop{
		ID: "C28", Quick: 16000, Thorough: 400000,
		Rule:        "a case watches one operation at every step where its caller is involved (each chunk asked for, each write accepted, each piece delivered, each entry delivered) and compares what was consumed with what was stored or fetched so far; non-trivial = an operation of at least 10 steps, keyed by operation and input",
		Assumptions: []string{"splitters are the test's own, so that reading ahead inside a splitter does not count"},
		Required:    []string{"imports", "appends", "modifier_writes", "reads", "listings", "async_listings", "tree_walks", "heap_imports", "steps"},
		Run:         runC28,
	})
}

// flow watches the nodes handed to the store.
type flow struct {
	ipld.DAGService
	mu      sync.Mutex
	leaves  map[string]bool // contents, so that storing equal leaves once is enough
	bytes   int64           // of file data in leaves
	pending map[string]int
	loose   int // nodes stored and not yet linked by a stored node
	inner   int
}

func newFlow(ds ipld.DAGService) *flow {
	return &flow{DAGService: ds, leaves: map[string]bool{}, pending: map[string]int{}}
}

func (f *flow) Add(ctx context.Context, nd ipld.Node) error {
	f.mu.Lock()
	if ls := nd.Links(); len(ls) == 0 {
		if d, err := ft.ReadUnixFSNodeData(nd); err == nil {
			f.leaves[leafKey(d)] = true
			f.bytes += int64(len(d))
		}
	} else {
		f.inner++
		for _, l := range ls {
			if k := l.Cid.KeyString(); f.pending[k] > 0 {
				f.pending[k]--
				f.loose--
			}
		}
	}
	f.pending[nd.Cid().KeyString()]++
	f.loose++
	f.mu.Unlock()
	return f.DAGService.Add(ctx, nd)
}

func (f *flow) AddMany(ctx context.Context, nds []ipld.Node) error {
	for _, nd := range nds {
		if err := f.Add(ctx, nd); err != nil {
			return err
		}
	}
	return nil
}

func leafKey(b []byte) string {
	if len(b) <= 32 {
		return string(b)
	}
	h := sha256.Sum256(b)
	return string(h[:])
}

func (f *flow) state() (loose int, b int64) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.loose, f.bytes
}

// watchedSplitter calls f before each chunk is handed out, with the number of
// chunks handed out and how many of them are not in the store.
type watchedSplitter struct {
	chunker.Splitter
	flow  *flow
	f     func(handedOut, missing int)
	n     int
	loose []string // handed out, not seen in the store
}

func (s *watchedSplitter) NextBytes() ([]byte, error) {
	if s.flow != nil {
		s.flow.mu.Lock()
		left := s.loose[:0]
		for _, k := range s.loose {
			if !s.flow.leaves[k] {
				left = append(left, k)
			}
		}
		s.loose = left
		s.flow.mu.Unlock()
	}
	s.f(s.n, len(s.loose))
	b, err := s.Splitter.NextBytes()
	if err == nil {
		s.n++
		if s.flow != nil {
			s.loose = append(s.loose, leafKey(b))
		}
	}
	return b, err
}

// chunkLag is how many chunks may be in flight between splitter and store.
const chunkLag = 3

func runC28(c *Case) {
	if c.R.Chance(0.0012) {
		streamHeap(c)
		return
	}
	switch k := c.R.Intn(100); {
	case k < 30:
		streamImport(c)
	case k < 50:
		streamAppend(c)
	case k < 52:
		streamModifier(c)
	case k < 80:
		streamRead(c)
	case k < 82:
		streamAsync(c)
	case k < 90:
		streamList(c)
	default:
		streamTree(c)
	}
}

func streamImp(c *Case) impSpec {
	s := genImp(c.R)
	if c.R.Chance(0.6) {
		s.maxlinks = pick(c.R, 2, 3, 4, 5)
	}
	return s
}

func streamImport(c *Case) {
	s := streamImp(c)
	m := newMemDAG()
	d := c.R.Bytes(s.genLen(c.R, 400))
	f := newFlow(m)
	lag, loose, steps := 0, 0, 0
	spl := &watchedSplitter{Splitter: s.ch.splitter(bytes.NewReader(d)), flow: f}
	spl.f = func(k, missing int) {
		o, _ := f.state()
		lag, loose = max(lag, missing), max(loose, o)
		steps++
		c.Check(missing <= chunkLag, "import-lag", "%s: chunk %d is asked for with %d of those before it not stored", s, k+1, missing)
	}
	p := s.params(f)
	db, err := p.New(spl)
	c.Must(err, "builder")
	nd, err := s.layout(db)
	c.Must(err, "layout")
	c.Logf("%s: %d bytes, %d chunks", s, len(d), spl.n)
	a, err := m.audit(nd.Cid())
	c.Must(err, "audit")
	bound := (s.maxlinks + 4*a.depth + 2) * (a.depth + 1)
	c.Check(loose <= bound, "import-loose", "%s: up to %d nodes were stored and not linked yet (depth %d, bound %d)", s, loose, a.depth, bound)
	c.Count("imports", 1)
	streamDone(c, steps, lag, fmt.Sprint("import", s, nd.Cid()))
}

func streamDone(c *Case, steps, lag int, key string) {
	c.Count("steps", steps)
	c.Max("max_lag", lag)
	if steps < 10 {
		key = ""
	}
	c.Eval(key)
	c.Sample(head(fmt.Sprint(c.trace), 300))
}

func streamAppend(c *Case) {
	s := streamImp(c)
	s.trickle = true
	m := newMemDAG()
	base, err := s.importBytes(m, c.R.Bytes(s.genLen(c.R, 100)))
	c.Must(err, "import")
	f := newFlow(m)
	lag, steps := 0, 0
	spl := &watchedSplitter{Splitter: s.ch.splitter(bytes.NewReader(c.R.Bytes(s.genLen(c.R, 300)))), flow: f}
	spl.f = func(k, missing int) {
		lag = max(lag, missing)
		steps++
		c.Check(missing <= chunkLag, "append-lag", "%s: chunk %d is asked for with %d of those before it not stored", s, k+1, missing)
	}
	p := s.params(f)
	db, err := p.New(spl)
	c.Must(err, "builder")
	nd, err := trickle.Append(bg, base, db)
	c.Must(err, "append")
	c.Logf("append %d chunks, %s", spl.n, s)
	c.Count("appends", 1)
	streamDone(c, steps, lag, fmt.Sprint("append", s, nd.Cid()))
}

// streamModifier writes much more than the modifier may buffer.
func streamModifier(c *Case) {
	r := c.R
	const buffer = 2 << 20
	setLinksPerBlock(pick(r, 8, 30, 174))
	m := newMemDAG()
	f := newFlow(m)
	var nd ipld.Node = ft.EmptyFileNode()
	if r.Chance(0.5) {
		s := impSpec{ch: chunkSpec{size: 20000}, maxlinks: 174, trickle: r.Chance(0.5), raw: r.Chance(0.5), b: builders[0]}
		var err error
		nd, err = s.importBytes(m, r.Bytes(r.Intn(2000000)))
		c.Must(err, "import")
	} else {
		c.Must(m.Add(bg, nd), "add")
	}
	dm, err := mod.NewDagModifier(bg, nd, f, chunkSpec{size: pick(r, 20000, 100000)}.gen())
	c.Must(err, "open")
	total, worst := int64(0), int64(0)
	steps := 0
	block := r.Bytes(1 << 20)
	for total < 6<<20 {
		b := block[r.Intn(1<<19):]
		b = b[:r.Range(1, pick(r, 1000, 1<<19))]
		if r.Chance(0.02) {
			_, err = dm.WriteAt(b, total) // at the cursor
		} else {
			_, err = dm.Write(b)
		}
		c.Must(err, "write")
		total += int64(len(b))
		steps++
		_, st := f.state()
		worst = max(worst, total-st)
		c.Check(total-st <= buffer+int64(len(b)), "modifier-buffer", "after %d bytes written %d are stored; the last write had %d", total, st, len(b))
	}
	c.Logf("modifier: %d bytes in %d writes, at most %d not stored", total, steps, worst)
	c.Max("modifier_buffered", int(worst))
	c.Count("modifier_writes", steps)
	c.Must(dm.Sync(), "sync")
	streamDone(c, steps, 0, fmt.Sprint("modifier", c.Seed))
}

type funcWriter func(b []byte) (int, error)

func (f funcWriter) Write(b []byte) (int, error) { return f(b) }

// streamRead delivers a file piece by piece.
func streamRead(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	nd, data, desc := localFile(c, m)
	occs, depth, _, err := fileMap(m, nd.Cid())
	c.Must(err, "map")
	nd, err = m.get(nd.Cid())
	c.Must(err, "get")
	m.resetLog()
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "open")
	defer dr.Close()
	leaf := int64(0) // the longest
	for _, os := range occs {
		for _, o := range os {
			if o.leaf {
				leaf = max(leaf, o.end-o.start)
			}
		}
	}
	if len(occs) == 0 {
		leaf = int64(len(data))
	}
	fetched := map[string]bool{}
	steps, worst := 0, 0
	pos := int64(0)
	watch := func(how string) {
		for _, k := range m.takeNow() {
			fetched[k] = true
		}
		ahead := 0
		for k := range fetched {
			os, ok := occs[k]
			c.Check(ok, "foreign", "a block that is not below the root was fetched")
			after := true
			for _, o := range os {
				after = after && o.start > pos
			}
			if after {
				ahead++
			}
		}
		worst = max(worst, ahead)
		steps++
		c.Check(ahead <= lookAhead*(depth+1), "read-ahead", "%s of %s (%d bytes) at %d has fetched %d blocks further on", how, desc, len(data), pos, ahead)
	}
	how := pick(r, "Read", "CtxReadFull", "WriteTo")
	if how == "WriteTo" {
		_, err := dr.WriteTo(funcWriter(func(b []byte) (int, error) {
			c.Check(int64(len(b)) <= leaf, "writeto-collects", "WriteTo of %s (%d bytes) hands over %d bytes at once, the longest leaf has %d", desc, len(data), len(b), leaf)
			pos += int64(len(b))
			watch(how)
			return len(b), nil
		}))
		c.Must(err, "writeto")
	} else {
		for err == nil {
			var n int
			b := make([]byte, r.Range(1, 200))
			if how == "Read" {
				n, err = dr.Read(b)
			} else {
				n, err = dr.CtxReadFull(bg, b)
			}
			pos += int64(n)
			watch(how)
		}
		if err != io.EOF {
			c.Must(err, "read")
		}
	}
	c.Check(pos == int64(len(data)), "short", "%d of %d bytes", pos, len(data))
	c.Logf("%s of %s, %d bytes: at most %d blocks ahead", how, desc, len(data), worst)
	c.Max("read_ahead", worst)
	c.Count("reads", 1)
	streamDone(c, steps, 0, fmt.Sprint(how, nd.Cid()))
}

// takeNow returns the fetches since the last call, without waiting.
func (m *memDAG) takeNow() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := m.getLog
	m.getLog = nil
	return l
}

// storedShard stores a sharded directory of n entries and describes it.
func storedShard(c *Case, m *memDAG, width, n int) (root cid.Cid, shards, noValue int, entries map[string]bool) {
	s, err := hamt.NewShard(m, width)
	c.Must(err, "newshard")
	entries = map[string]bool{}
	for i := 0; i < n; i++ {
		nd := mdag.NewRawNode([]byte(fmt.Sprint(c.Seed, i)))
		m.put(nd.Cid(), nd.RawData())
		entries[string(nd.Cid().Hash())] = true
		c.Must(s.SetLink(bg, fmt.Sprintf("%x-%d", c.R.Uint32(), i), &ipld.Link{Cid: nd.Cid(), Size: 5}), "set")
	}
	nd, err := s.Node()
	c.Must(err, "node")
	pad := len(fmt.Sprintf("%X", width-1))
	var walk func(k cid.Cid)
	walk = func(k cid.Cid) {
		raw, ok := m.block(k)
		c.Check(ok, "harness", "shard missing")
		ls, _, err := parseDagPB(raw)
		c.Must(err, "parse")
		shards++
		values := 0
		for _, l := range ls {
			if len(l.Name) == pad {
				walk(l.Cid)
			} else {
				values++
			}
		}
		if values == 0 {
			noValue++
		}
	}
	walk(nd.Cid())
	return nd.Cid(), shards, noValue, entries
}

// streamAsync: whoever stops taking entries stops the listing.
func streamAsync(c *Case) {
	r := c.R
	m := newMemDAG()
	const width = 8
	root, shards, noValue, _ := storedShard(c, m, width, r.Range(1500, 3000))
	d := loadDir(c, m, root)
	m.resetLog()
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ch := d.EnumLinksAsync(ctx)
	taken, steps, worst := 0, 0, 0
	for t := r.Range(1, 4); t > 0; t-- {
		for k := r.Range(1, 15); k > 0; k-- {
			x, ok := <-ch
			c.Check(ok && x.Err == nil, "async-end", "the listing ended after %d entries: %v", taken, x.Err)
			taken++
			steps++
		}
		m.settle()
		m.mu.Lock()
		n := len(m.getLog)
		m.mu.Unlock()
		worst = max(worst, n)
		bound := 32*width + 64 + noValue + taken
		c.Check(n <= bound, "async-ahead", "with %d entries taken %d of %d shards are fetched (bound %d)", taken, n, shards, bound)
	}
	cancel()
	for range ch {
	}
	m.settle()
	c.Logf("EnumLinksAsync: %d shards; %d fetched with %d entries taken", shards, worst, taken)
	c.Count("async_listings", 1)
	c.Max("async_shards_not_fetched", shards-worst)
	streamDone(c, steps, 0, fmt.Sprint("async", root))
}

func loadDir(c *Case, m *memDAG, root cid.Cid) uio.Directory {
	nd, err := m.get(root)
	c.Must(err, "get")
	d, err := uio.NewDirectoryFromNode(m, nd)
	c.Must(err, "fromnode")
	return d
}

// streamList: a listing with a callback runs in step with it.
func streamList(c *Case) {
	r := c.R
	m := newMemDAG()
	width := pick(r, 8, 8, 16, 64)
	root, shards, noValue, entries := storedShard(c, m, width, r.Range(5, 300))
	d := loadDir(c, m, root)
	m.resetLog()
	taken := 0
	c.Must(d.ForEachLink(bg, func(*ipld.Link) error {
		m.mu.Lock()
		n := len(m.getLog)
		for _, k := range m.getLog {
			if entries[k] {
				m.mu.Unlock()
				c.Fail("list-fetches-entry", "listing fetched an entry")
			}
		}
		m.mu.Unlock()
		c.Check(n <= taken+noValue+lookAhead, "list-ahead", "at entry %d of %d, %d of %d shards are fetched (%d of all have no entries of their own)", taken+1, len(entries), n, shards, noValue)
		taken++
		return nil
	}), "foreach")
	c.Check(taken == len(entries), "short", "%d of %d entries", taken, len(entries))
	c.Logf("ForEachLink: %d entries in %d shards of width %d", taken, shards, width)
	c.Count("listings", 1)
	streamDone(c, taken, 0, fmt.Sprint("foreach", root))
}

// streamTree: the file-tree view fetches entries as they are asked for.
func streamTree(c *Case) {
	r := c.R
	m := newMemDAG()
	n := r.Range(5, 80)
	var root cid.Cid
	var entries map[string]bool
	noValue := 0
	what := "sharded"
	if r.Chance(0.5) {
		root, _, noValue, entries = storedShard(c, m, pick(r, 8, 16), n)
	} else {
		what = "basic"
		setShardingSize(0)
		d := uio.NewDirectory(m)
		entries = map[string]bool{}
		for i := 0; i < n; i++ {
			nd := mdag.NewRawNode([]byte(fmt.Sprint(c.Seed, i)))
			m.put(nd.Cid(), nd.RawData())
			entries[string(nd.Cid().Hash())] = true
			c.Must(d.AddChild(bg, fmt.Sprint(i), nd), "add")
		}
		nd, err := d.GetNode()
		c.Must(err, "getnode")
		m.put(nd.Cid(), nd.RawData())
		root = nd.Cid()
	}
	nd, err := m.get(root)
	c.Must(err, "get")
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	m.resetLog()
	fn, err := unixfile.NewUnixfsFile(ctx, m, nd)
	c.Must(err, "open")
	it := fn.(files.Directory).Entries()
	taken := 0
	check := func() {
		m.mu.Lock()
		defer m.mu.Unlock()
		e, s := 0, 0
		for _, k := range m.getLog {
			if entries[k] {
				e++
			} else {
				s++
			}
		}
		c.Check(e <= taken+lookAhead, "tree-ahead", "%s: with %d entries taken %d of %d are fetched", what, taken, e, n)
		c.Check(s <= taken+noValue+2*lookAhead, "tree-shards-ahead", "%s: with %d entries taken %d shards are fetched", what, taken, s)
	}
	for it.Next() {
		taken++
		check()
	}
	c.Must(it.Err(), "walk")
	c.Check(taken == n, "short", "%d of %d", taken, n)
	cancel()
	c.Logf("tree view of a %s directory of %d", what, n)
	c.Count("tree_walks", 1)
	streamDone(c, taken, 0, fmt.Sprint("tree", root))
}

// endless makes n bytes, no two blocks of which are the same.
type endless struct {
	n int64
	x uint64
}

func (e *endless) Read(b []byte) (int, error) {
	if e.n == 0 {
		return 0, io.EOF
	}
	if int64(len(b)) > e.n {
		b = b[:e.n]
	}
	for i := 0; i < len(b); i += 8 {
		e.x = e.x*6364136223846793005 + 1442695040888963407
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(e.x >> (uint(j-i) * 8))
		}
	}
	e.n -= int64(len(b))
	return len(b), nil
}

// streamHeap imports much more than may be held in memory into a store that
// keeps nothing.
func streamHeap(c *Case) {
	r := c.R
	const total, limit = 48 << 20, 8 << 20
	s := impSpec{ch: chunkSpec{size: pick(r, 64<<10, 200_000, 256<<10)}, maxlinks: pick(r, 3, 30, 174), trickle: r.Chance(0.5), raw: r.Chance(0.5), b: pick(r, builders[:3]...)}
	heap := func() int64 {
		var ms runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&ms)
		return int64(ms.HeapAlloc)
	}
	sink := &discard{}
	var first, worst int64
	next := 8 << 20
	spl := &watchedSplitter{Splitter: chunker.NewSizeSplitter(&endless{n: total, x: c.Seed}, int64(s.ch.size))}
	spl.f = func(k, _ int) {
		if k*s.ch.size < next {
			return
		}
		next += 8 << 20
		g := heap()
		if first == 0 {
			first = g
		}
		worst = max(worst, g-first)
		c.Check(g-first <= limit, "import-heap", "%s: after %d MB of %d MB the heap has grown by %d MB", s, k*s.ch.size>>20, total>>20, (g-first)>>20)
	}
	p := s.params(sink)
	db, err := p.New(spl)
	c.Must(err, "builder")
	_, err = s.layout(db)
	c.Must(err, "layout")
	c.Logf("%s: 48 MB imported, heap grew by %d kB, %d nodes", s, worst>>10, sink.n)
	c.Count("heap_imports", 1)
	c.Max("heap_growth_kB", int(worst>>10))
	streamDone(c, spl.n, 0, fmt.Sprint("heap", s))
}

// discard is a store that keeps nothing.
type discard struct {
	ipld.DAGService
	n int
}

func (d *discard) Add(context.Context, ipld.Node) error { d.n++; return nil }
func (d *discard) AddMany(_ context.Context, nds []ipld.Node) error {
	d.n += len(nds)
	return nil
}
