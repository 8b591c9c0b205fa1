package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"time"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	posinfo "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	legacy "github.com/ipfs/go-ipld-legacy"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
)

var errInjected = errors.New("zverif: injected storage fault")

// storeFaults are the errors a store answers with when it fails. Some are
// easily mistaken for something else: a store may give up with a context error
// while the caller's own context is alive, and a truncated block read is not
// the end of a file.
var storeFaults = []error{
	errInjected, errInjected,
	fmt.Errorf("zverif: wrapped: %w", errInjected),
	context.Canceled, context.DeadlineExceeded,
	fmt.Errorf("zverif store: %w", context.Canceled),
	io.ErrUnexpectedEOF,
	ipld.ErrNotFound,
}

func genStoreFault(c *Case, r *Rng) error {
	i := r.Intn(len(storeFaults))
	if i > 1 {
		c.Count("other_fault_errors", 1)
	}
	return storeFaults[i]
}

func isStoreFault(err error) bool {
	for _, f := range storeFaults {
		if err == f {
			return true
		}
	}
	return errors.Is(err, errInjected) || err == errNotAll
}

// Op is one storage operation as the fault plan sees it.
type Op struct {
	Kind string // "get", "many" (one key of a GetMany), "add"
	Cid  cid.Cid
	N    int // global sequence number of the operation
	I    int // position of a key in its batch
}

// memDAG is the monitoring store: an in-memory DAGService with the semantics
// of the real one (fresh nodes per fetch, contexts honoured, batched fetches
// de-duplicated and answered in any order, "failed to fetch all nodes" for
// missing blocks) which records every operation, checks every block it is
// given, and injects faults and delays.
type memDAG struct {
	mu     sync.Mutex
	blocks map[string][]byte // by multihash
	order  []string          // multihashes in the order first stored

	fault   func(Op) error // consulted (under mu) before each operation
	delay   func(Op) time.Duration
	shuffle *Rng // answer GetMany in shuffled order
	yield   bool // yield the processor at each operation

	hang    func(Op) bool // true: the operation is never answered (until release)
	hung    int           // operations started that were not answered
	waiting int           // of these, not given up yet
	release chan struct{}

	n         int
	gets      int
	manyKeys  int
	adds      int
	faults    int
	getLog    []string        // multihash of every block fetched
	getCount  map[string]int  // fetches per multihash
	pos       []posinfoRecord // PosInfo-carrying adds
	integrity []string        // blocks whose CID is not the hash of their bytes
	closed    bool            // record adds of blocks whose links are not stored yet
	orphans   []string
	removes   int
	added     map[string]bool // CID strings added
	addCids   []cid.Cid       // in order
	noLog     bool
	rawAdds   int // raw leaves added without PosInfo
	calls     int // Get and GetMany calls, counted in the caller's goroutine
}

type posinfoRecord struct {
	c      cid.Cid
	data   []byte
	offset uint64
	path   string
	size   int64
	stat   os.FileInfo
}

func newMemDAG() *memDAG {
	return &memDAG{blocks: map[string][]byte{}, getCount: map[string]int{}, added: map[string]bool{}}
}

var _ ipld.DAGService = (*memDAG)(nil)

// pre runs the fault plan for one operation. Called with mu held.
func (m *memDAG) pre(kind string, c cid.Cid, i int) (Op, error) {
	op := Op{kind, c, m.n, i}
	m.n++
	if m.fault != nil {
		if err := m.fault(op); err != nil {
			m.faults++
			return op, err
		}
	}
	return op, nil
}

// unanswered returns nil, or how to wait for the answer an operation will
// never get.
func (m *memDAG) unanswered(op Op) func(context.Context) error {
	m.mu.Lock()
	hang, release := m.hang, m.release
	m.mu.Unlock()
	if hang == nil || !hang(op) {
		return nil
	}
	m.mu.Lock()
	m.hung++
	m.waiting++
	m.mu.Unlock()
	return func(ctx context.Context) error {
		defer func() {
			m.mu.Lock()
			m.waiting--
			m.mu.Unlock()
		}()
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-release:
			return errInjected
		}
	}
}

func (m *memDAG) wait(ctx context.Context, op Op) error {
	if w := m.unanswered(op); w != nil {
		return w(ctx)
	}
	return m.answer(ctx, op)
}

// answer delays an operation as planned.
func (m *memDAG) answer(ctx context.Context, op Op) error {
	m.mu.Lock()
	yield, delay := m.yield, m.delay
	m.mu.Unlock()
	if yield {
		runtime.Gosched()
	}
	if delay != nil {
		if d := delay(op); d > 0 {
			// sleep in slices so a cancelled context is noticed
			for d > 0 {
				if err := ctx.Err(); err != nil {
					return err
				}
				s := d
				if s > 200*time.Microsecond {
					s = 200 * time.Microsecond
				}
				time.Sleep(s)
				d -= s
			}
		}
	}
	return ctx.Err()
}

func (m *memDAG) Add(ctx context.Context, nd ipld.Node) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	var rec *posinfoRecord
	if fn, ok := nd.(*posinfo.FilestoreNode); ok {
		rec = &posinfoRecord{c: fn.Cid(), data: append([]byte(nil), fn.RawData()...)}
		if fn.PosInfo != nil {
			rec.offset, rec.path = fn.PosInfo.Offset, fn.PosInfo.FullPath
			rec.size, rec.stat = -1, fn.PosInfo.Stat
			if fn.PosInfo.Stat != nil {
				rec.size = fn.PosInfo.Stat.Size()
			}
		}
	}
	c, raw := nd.Cid(), append([]byte(nil), nd.RawData()...)
	m.mu.Lock()
	op, err := m.pre("add", c, 0)
	m.mu.Unlock()
	if werr := m.wait(ctx, op); werr != nil {
		return werr
	}
	if err != nil {
		return err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.adds++
	if got, err := c.Prefix().Sum(raw); err != nil || !got.Equals(c) {
		m.integrity = append(m.integrity, fmt.Sprintf("block %s added with %d bytes that hash to %s (%v)", c, len(raw), got, err))
	}
	if rec != nil {
		m.pos = append(m.pos, *rec)
	} else if c.Prefix().Codec == cid.Raw {
		m.rawAdds++
	}
	k := string(c.Hash())
	if old, ok := m.blocks[k]; ok {
		if !bytes.Equal(old, raw) {
			m.integrity = append(m.integrity, fmt.Sprintf("block %s stored with two contents", c))
		}
	} else {
		m.order = append(m.order, k)
	}
	m.blocks[k] = raw
	if m.closed && c.Prefix().Codec == cid.DagProtobuf {
		links, _, err := parseDagPB(raw)
		if err != nil {
			m.orphans = append(m.orphans, fmt.Sprintf("%s stored with an undecodable body: %v", c, err))
		}
		for _, l := range links {
			if _, ok := m.blocks[string(l.Cid.Hash())]; !ok {
				m.orphans = append(m.orphans, fmt.Sprintf("%s stored before %s, to which it links (%q)", c, l.Cid, l.Name))
			}
		}
	}
	if !m.added[c.String()] {
		m.added[c.String()] = true
		m.addCids = append(m.addCids, c)
	}
	return nil
}

func (m *memDAG) AddMany(ctx context.Context, nds []ipld.Node) error {
	for _, nd := range nds {
		if err := m.Add(ctx, nd); err != nil {
			return err
		}
	}
	return nil
}

func (m *memDAG) record(c cid.Cid) {
	k := string(c.Hash())
	if !m.noLog {
		m.getLog = append(m.getLog, k)
	}
	m.getCount[k]++
}

func (m *memDAG) decode(ctx context.Context, c cid.Cid, raw []byte) (nd ipld.Node, err error) {
	defer func() { // the dag-pb codec panics on some corrupted blocks
		if e := recover(); e != nil {
			nd, err = nil, fmt.Errorf("cannot decode block: %v", e)
		}
	}()
	b, err := blocks.NewBlockWithCid(append([]byte(nil), raw...), c)
	if err != nil {
		return nil, err
	}
	if c.Prefix().Codec == foreignCodec {
		return decodeForeign(b)
	}
	return legacy.DecodeNode(ctx, b)
}

func (m *memDAG) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	m.mu.Lock()
	m.calls++
	op, err := m.pre("get", c, 0)
	m.gets++
	m.record(c)
	m.mu.Unlock()
	if werr := m.wait(ctx, op); werr != nil {
		return nil, werr
	}
	if err != nil {
		return nil, err
	}
	m.mu.Lock()
	raw, ok := m.blocks[string(c.Hash())]
	m.mu.Unlock()
	if !ok {
		return nil, ipld.ErrNotFound
	}
	return m.decode(ctx, c, raw)
}

func (m *memDAG) GetMany(ctx context.Context, cids []cid.Cid) <-chan *ipld.NodeOption {
	set := cid.NewSet()
	var keys []cid.Cid
	for _, c := range cids {
		if set.Visit(c) {
			keys = append(keys, c)
		}
	}
	out := make(chan *ipld.NodeOption, 2*len(keys)+1)
	m.mu.Lock()
	m.calls++
	if m.shuffle != nil {
		m.shuffle.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	m.mu.Unlock()
	go func() {
		count := 0
		var late []func(context.Context) error
		defer func() { // the others are answered first
			for _, w := range late {
				out <- &ipld.NodeOption{Err: w(ctx)}
			}
			close(out)
		}()
		for i, c := range keys {
			if err := ctx.Err(); err != nil {
				out <- &ipld.NodeOption{Err: err}
				return
			}
			m.mu.Lock()
			op, err := m.pre("many", c, i)
			m.manyKeys++
			m.record(c)
			m.mu.Unlock()
			if w := m.unanswered(op); w != nil {
				late = append(late, w)
				continue
			}
			if werr := m.answer(ctx, op); werr != nil {
				out <- &ipld.NodeOption{Err: werr}
				return
			}
			if err != nil {
				if err == errMissing { // skipped silently, reported at the end
					continue
				}
				out <- &ipld.NodeOption{Err: err}
				return
			}
			m.mu.Lock()
			raw, ok := m.blocks[string(c.Hash())]
			m.mu.Unlock()
			if !ok {
				continue
			}
			nd, err := m.decode(ctx, c, raw)
			if err != nil {
				out <- &ipld.NodeOption{Err: err}
				return
			}
			out <- &ipld.NodeOption{Node: nd}
			count++
		}
		if count+len(late) != len(keys) {
			out <- &ipld.NodeOption{Err: errNotAll}
		}
	}()
	return out
}

// errNotAll ends a batched fetch that missed some block.
var errNotAll = errors.New("failed to fetch all nodes")

// errMissing makes a faulted key of a batch behave like an absent block.
var errMissing = ipld.ErrNotFound

func (m *memDAG) Remove(ctx context.Context, c cid.Cid) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.removes++
	delete(m.blocks, string(c.Hash()))
	return nil
}

func (m *memDAG) RemoveMany(ctx context.Context, cs []cid.Cid) error {
	for _, c := range cs {
		m.Remove(ctx, c)
	}
	return nil
}

// put stores a block directly, bypassing the monitors.
func (m *memDAG) put(c cid.Cid, raw []byte) {
	m.mu.Lock()
	m.blocks[string(c.Hash())] = raw
	m.mu.Unlock()
}

func (m *memDAG) block(c cid.Cid) ([]byte, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	b, ok := m.blocks[string(c.Hash())]
	return b, ok
}

func (m *memDAG) get(c cid.Cid) (ipld.Node, error) {
	raw, ok := m.block(c)
	if !ok {
		return nil, ipld.ErrNotFound
	}
	return m.decode(context.Background(), c, raw)
}

func (m *memDAG) resetLog() {
	m.mu.Lock()
	m.getLog, m.getCount, m.gets, m.manyKeys, m.adds, m.faults = nil, map[string]int{}, 0, 0, 0, 0
	m.n = 0
	m.mu.Unlock()
}

func (m *memDAG) setFault(f func(Op) error) {
	m.mu.Lock()
	m.fault = f
	m.mu.Unlock()
}

// ops is the number of storage operations begun so far.
func (m *memDAG) ops() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.n
}

func (m *memDAG) stat() (fetches, adds, faults int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.gets + m.manyKeys, m.adds, m.faults
}

// rewire stores a copy of the DAG below c in which links to the block victim
// lead to repl instead, and returns its root.
func (m *memDAG) rewire(c cid.Cid, victim string, repl cid.Cid) (cid.Cid, error) {
	if string(c.Hash()) == victim {
		return repl, nil
	}
	nd, err := m.get(c)
	if err != nil {
		return c, err
	}
	pn, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return c, nil
	}
	changed := false
	var links []*ipld.Link
	for _, l := range pn.Links() {
		k, err := m.rewire(l.Cid, victim, repl)
		if err != nil {
			return c, err
		}
		size := l.Size
		if !k.Equals(l.Cid) {
			changed = true
			if n, err := m.get(k); err == nil {
				if s, err := n.Size(); err == nil {
					size = s
				}
			}
		}
		links = append(links, &ipld.Link{Name: l.Name, Size: size, Cid: k})
	}
	if !changed {
		return c, nil
	}
	out := mdag.NodeWithData(pn.Data())
	out.SetCidBuilder(pn.CidBuilder())
	out.SetLinks(links)
	m.put(out.Cid(), out.RawData())
	return out.Cid(), nil
}

// genForeign stores a node that is not a murmur3 shard.
func genForeign(c *Case, m *memDAG) cid.Cid {
	b := pick(c.R, builders...)
	var nd ipld.Node
	d := c.R.Bytes(c.R.Intn(20))
	pn := func(data []byte) ipld.Node {
		n := mdag.NodeWithData(data)
		n.SetCidBuilder(b.b)
		return n
	}
	switch c.R.Intn(7) {
	case 6:
		nd = newForeign(d)
	case 0:
		nd = mdag.NewRawNode(d)
	case 1:
		nd = pn(ft.FolderPBData())
	case 2:
		nd = pn(ft.FilePBData(d, uint64(len(d))))
	case 3:
		nd = pn(d) // most likely no unixfs node at all
	case 4: // an empty shard with another hash function
		x, err := ft.HAMTShardData(nil, 8<<uint(c.R.Intn(6)), pick(c.R, uint64(0x12), 0x1e, 0x21, 0x23))
		c.Must(err, "sharddata")
		nd = pn(x)
	default:
		x, err := ft.SymlinkData("target")
		c.Must(err, "symlink")
		nd = pn(x)
	}
	m.put(nd.Cid(), nd.RawData())
	return nd.Cid()
}

// clone copies the stored blocks (not the logs or faults).
func (m *memDAG) clone() *memDAG {
	m.mu.Lock()
	defer m.mu.Unlock()
	o := newMemDAG()
	for k, v := range m.blocks {
		o.blocks[k] = v
	}
	o.order = append([]string(nil), m.order...)
	return o
}

// checkIntegrity fails the case if any block was stored under a CID that is
// not its hash.
func (m *memDAG) checkIntegrity(c *Case) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.integrity) > 0 {
		c.Fail("integrity", "%s", m.integrity[0])
	}
}
