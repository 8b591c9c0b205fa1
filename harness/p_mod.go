package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	mh "github.com/multiformats/go-multihash"
)

func init() {
	register(&Prop{
		ID: "C07", Quick: 9000, Thorough: 200000,
		Rule:        "a case opens a modifier on one generated file (any layout, leaf form, link limit) and runs 5..60 generated operations, comparing every result and the final file with a byte array and a cursor; non-trivial = at least one write and one read or truncate, keyed by start file and operation list",
		Assumptions: []string{"non-empty writes; healthy store"},
		Required:    []string{"writes", "overwrites", "gaps", "truncates", "grows", "reads", "rejected", "seeks", "write_after_read", "big_writes", "refused_modifiers", "malformed_refusals", "malformed_successes", "huge_files"},
		Run:         func(c *Case) { runMod(c, "C07") },
	})
	register(&Prop{
		ID: "C08", Quick: 15000, Thorough: 270000,
		Rule:        "a case records every node, link object and link list that goes into or comes out of a modifier, directory or shard and re-checks all of them after 5..60 later operations; non-trivial = at least one object recorded before a later mutation, keyed by history",
		Assumptions: []string{"trickle.Append extends its base node in place by design (an existing test relies on it), so the base handed to Append itself is excluded"},
		Required:    []string{"snapshots_checked", "dir_snapshots_checked", "shard_snapshots_checked", "links_checked", "link_lists_checked", "own_nodes_changed", "own_lists_changed"},
		Run:         runC08,
	})
	register(&Prop{
		ID: "C09", Quick: 10000, Thorough: 180000,
		Rule:        "a case runs generated modifier operations and after every few of them audits the returned node with an independent parser, reads it with a fresh reader and re-opens a modifier on it; non-trivial = at least one modification before an audit, keyed by audited roots",
		Assumptions: []string{"start files whose data sits in the leaves; non-empty writes"},
		Required:    []string{"audits", "reopened", "prefix_checked", "defaults_checked", "formats_checked", "huge_files"},
		Run:         func(c *Case) { runMod(c, "C09") },
	})
	register(&Prop{
		ID: "C10", Level: "fault_enumeration", Quick: 10000, Thorough: 180000,
		Rule:        "a case runs generated modifier operations with faults at enumerated store operations, and after each failure heals the store and compares size and content with the states before and after the failed operation; non-trivial = at least one operation failed, keyed by history and fault positions",
		Assumptions: []string{"non-empty writes; after a failure the cursor is set explicitly before the next use"},
		Required:    []string{"failed_ops", "failed_Sync", "failed_Truncate", "failed_Seek", "failed_Read", "failed_WriteAt", "failed_GetNode", "kept_before"},
		Run:         func(c *Case) { runMod(c, "C10") },
	})
}

// modDrv drives one DagModifier next to its model.
type modDrv struct {
	c     *Case
	m     *memDAG
	dm    *mod.DagModifier
	model []byte
	cur   int64
	ctx   context.Context
	start ipld.Node

	lent     []byte
	key      []byte
	writes   int
	lastRead bool
}

// startFile stores a file a modifier can start from.
func startFile(c *Case, m *memDAG, b bspec) (ipld.Node, []byte, string) {
	r := c.R
	switch r.Intn(8) {
	case 0:
		n := ft.EmptyFileNode()
		n.SetCidBuilder(b.b)
		c.Must(m.Add(bg, n), "add")
		return n, nil, "empty"
	case 1:
		d := r.Bytes(r.Intn(300))
		var n *mdag.ProtoNode
		if r.Chance(0.5) {
			n = mdag.NodeWithData(ft.WrapData(d))
		} else {
			n = mdag.NodeWithData(ft.FilePBData(d, uint64(len(d))))
		}
		n.SetCidBuilder(b.b)
		c.Must(m.Add(bg, n), "add")
		return n, d, "inline leaf"
	case 2:
		d := r.Bytes(r.Intn(300))
		var n *mdag.RawNode
		var err error
		if b.b == nil {
			n = mdag.NewRawNode(d)
		} else {
			n, err = mdag.NewRawNodeWPrefix(d, b.b)
			c.Must(err, "raw")
		}
		c.Must(m.Add(bg, n), "add")
		return n, d, "raw leaf"
	case 3:
		d := r.Bytes(r.Intn(3000))
		n, err := buildManual(r, m, d, b)
		c.Must(err, "build")
		return n, d, "manual"
	default:
		s := genImp(r)
		s.b = b
		n := s.genLen(r, 100)
		if n > 5000 {
			n = r.Intn(5000)
		}
		d := r.Bytes(n)
		nd, err := s.importBytes(m, d)
		c.Must(err, "import")
		return nd, d, s.String()
	}
}

func (d *modDrv) rest(n int) []byte {
	if d.cur >= int64(len(d.model)) {
		return nil
	}
	w := d.model[d.cur:]
	if len(w) > n {
		w = w[:n]
	}
	return w
}

// splice is the model's write.
func splice(m []byte, off int64, b []byte) []byte {
	out := append([]byte(nil), m...)
	for int64(len(out)) < off {
		out = append(out, 0)
	}
	n := copy(out[off:], b)
	return append(out, b[n:]...)
}

func resize(m []byte, n int64) []byte {
	out := append([]byte(nil), m...)
	if n <= int64(len(out)) {
		return out[:n]
	}
	return append(out, make([]byte, n-int64(len(out)))...)
}

// modOp is one generated operation.
type modOp struct {
	kind string
	n    int
	off  int64
	wh   int
	data []byte
}

func (o modOp) String() string {
	switch o.kind {
	case "Write":
		return fmt.Sprintf("Write(%d)", len(o.data))
	case "WriteAt":
		return fmt.Sprintf("WriteAt(%d, off %d)", len(o.data), o.off)
	case "Read", "CtxReadFull":
		return fmt.Sprintf("%s(%d)", o.kind, o.n)
	case "Seek":
		return fmt.Sprintf("Seek(%d, %d)", o.off, o.wh)
	case "Truncate":
		return fmt.Sprintf("Truncate(%d)", o.off)
	}
	return o.kind
}

func (d *modDrv) genOp() modOp {
	r := d.c.R
	size := int64(len(d.model))
	wdata := func() []byte {
		n := r.Range(1, 400)
		if r.Chance(0.1) {
			n = r.Range(1, 5000)
		}
		return r.Bytes(n)
	}
	pos := func() int64 {
		switch r.Intn(6) {
		case 0:
			return size
		case 1:
			return size + int64(r.Intn(200))
		case 2:
			if r.Chance(0.2) {
				return size + int64(r.Intn(12000))
			}
			return d.cur
		case 3:
			return 0
		default:
			return int64(r.Intn(int(size) + 1))
		}
	}
	switch k := r.Intn(20); {
	case k < 5:
		return modOp{kind: "Write", data: wdata()}
	case k < 9:
		o := modOp{kind: "WriteAt", data: wdata(), off: pos()}
		if r.Chance(0.03) {
			o.off = -int64(r.Range(1, 100))
		}
		return o
	case k < 12:
		return modOp{kind: pick(r, "Read", "CtxReadFull"), n: r.Intn(700)}
	case k < 15:
		t := pos()
		if r.Chance(0.05) {
			t = -int64(r.Range(1, 100))
		}
		o := modOp{kind: "Seek", off: t, wh: r.Intn(3)}
		if r.Chance(0.03) {
			o.wh = pick(r, -1, 3, 7, 100)
		}
		switch o.wh {
		case io.SeekCurrent:
			o.off = t - d.cur
		case io.SeekEnd:
			o.off = t - size
		}
		return o
	case k < 17:
		o := modOp{kind: "Truncate", off: pos()}
		if r.Chance(0.05) {
			o.off = -int64(r.Range(1, 100))
		}
		return o
	case k == 17:
		return modOp{kind: "Sync"}
	case k == 18:
		return modOp{kind: "Size"}
	default:
		return modOp{kind: "GetNode"}
	}
}

type modRes struct {
	n   int64
	buf []byte
	nd  ipld.Node
	err error
}

// lend gives the modifier a buffer that is overwritten as soon as the call
// returns: a writer must not keep its argument.
func (d *modDrv) lend(b []byte) []byte {
	d.lent = append(d.lent[:0], b...)
	return d.lent
}

func (d *modDrv) scribble() {
	for i := range d.lent {
		d.lent[i] ^= 0xa5
	}
}

func (d *modDrv) exec(o modOp) (r modRes) {
	switch o.kind {
	case "Write":
		n, err := d.dm.Write(d.lend(o.data))
		d.scribble()
		return modRes{n: int64(n), err: err}
	case "WriteAt":
		n, err := d.dm.WriteAt(d.lend(o.data), o.off)
		d.scribble()
		return modRes{n: int64(n), err: err}
	case "Read":
		b := make([]byte, o.n)
		n, err := d.dm.Read(b)
		return modRes{n: int64(n), buf: b, err: err}
	case "CtxReadFull":
		b := make([]byte, o.n)
		ctx := d.ctx
		if ctx == nil {
			ctx = bg
		}
		n, err := d.dm.CtxReadFull(ctx, b)
		return modRes{n: int64(n), buf: b, err: err}
	case "Seek":
		n, err := d.dm.Seek(o.off, o.wh)
		return modRes{n: n, err: err}
	case "Truncate":
		return modRes{err: d.dm.Truncate(o.off)}
	case "Sync":
		return modRes{err: d.dm.Sync()}
	case "Size":
		n, err := d.dm.Size()
		return modRes{n: n, err: err}
	case "GetNode":
		nd, err := d.dm.GetNode()
		return modRes{nd: nd, err: err}
	}
	panic("op")
}

// after computes the model state an operation leads to; ok is false when the
// operation has to be rejected.
func (d *modDrv) after(o modOp) (model []byte, cur int64, ok bool) {
	model, cur = d.model, d.cur
	switch o.kind {
	case "Write":
		return splice(model, cur, o.data), cur + int64(len(o.data)), true
	case "WriteAt":
		if o.off < 0 {
			return model, cur, false
		}
		return splice(model, o.off, o.data), o.off + int64(len(o.data)), true
	case "Seek":
		t := o.off
		switch o.wh {
		case io.SeekStart:
		case io.SeekCurrent:
			t += cur
		case io.SeekEnd:
			t += int64(len(model))
		default:
			return model, cur, false
		}
		if t < 0 {
			return model, cur, false
		}
		if t > int64(len(model)) {
			model = resize(model, t)
		}
		return model, t, true
	case "Truncate":
		if o.off < 0 {
			return model, cur, false
		}
		return resize(model, o.off), cur, true
	}
	return model, cur, true
}

// judge checks the result of an operation that ran on a healthy store.
func (d *modDrv) judge(o modOp, r modRes) {
	c := d.c
	nm, nc, ok := d.after(o)
	if !ok {
		c.Check(r.err != nil, "accepted:"+o.kind, "%s on a file of %d bytes at %d was accepted", o, len(d.model), d.cur)
		c.Count("rejected", 1)
		return
	}
	switch o.kind {
	case "Read", "CtxReadFull":
		want := d.rest(o.n)
		c.Check(int(r.n) == len(want) && bytes.Equal(r.buf[:r.n], want), "read", "%s at %d/%d: returned %d bytes (err %v), %s", o, d.cur, len(d.model), r.n, r.err, diffBytes(r.buf[:r.n], want))
		if len(want) < o.n {
			c.Check(r.err == io.EOF, "read-eof", "%s at %d/%d: %d bytes, err %v", o, d.cur, len(d.model), r.n, r.err)
		} else if r.err != nil {
			c.Check(r.err == io.EOF && d.cur+r.n >= int64(len(d.model)), "read-err", "%s: %v", o, r.err)
		}
		d.cur += r.n
		c.Count("reads", 1)
	case "Size":
		c.Must(r.err, "size-err")
		c.Check(r.n == int64(len(d.model)), "size", "Size() = %d, want %d", r.n, len(d.model))
	case "Write", "WriteAt":
		c.Must(r.err, "err:"+o.kind)
		c.Check(int(r.n) == len(o.data), "write-n", "%s returned %d", o, r.n)
		off := nc - int64(len(o.data))
		if off > int64(len(d.model)) {
			c.Count("gaps", 1)
		} else if off < int64(len(d.model)) {
			c.Count("overwrites", 1)
		}
		if d.lastRead {
			c.Count("write_after_read", 1)
		}
		d.model, d.cur = nm, nc
		d.writes++
		c.Count("writes", 1)
	case "Seek":
		c.Must(r.err, "err:Seek")
		c.Check(r.n == nc, "seek", "%s on %d bytes at %d returned %d, want %d", o, len(d.model), d.cur, r.n, nc)
		d.model, d.cur = nm, nc
		c.Count("seeks", 1)
	case "Truncate":
		c.Must(r.err, "err:Truncate")
		if len(nm) > len(d.model) {
			c.Count("grows", 1)
		} else {
			c.Count("truncates", 1)
		}
		d.model, d.cur = nm, nc
	default:
		c.Must(r.err, "err:"+o.kind)
		c.Check(o.kind != "GetNode" || r.nd != nil, "nil-node", "GetNode returned neither a node nor an error")
	}
	d.lastRead = o.kind == "Read" || o.kind == "CtxReadFull"
}

func (d *modDrv) content(nd ipld.Node) []byte {
	dr, err := uio.NewDagReader(bg, nd, d.m)
	d.c.Must(err, "reader")
	b, err := io.ReadAll(dr)
	d.c.Must(err, "readall")
	return b
}

// checkNode compares a node the modifier returned with the model.
func (d *modDrv) checkNode(nd ipld.Node, sig string) {
	got := d.content(nd)
	d.c.Check(bytes.Equal(got, d.model), sig, "the returned node's content: %s", diffBytes(got, d.model))
}

func newModDrv(c *Case, b bspec) *modDrv {
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	setLinksPerBlock(pick(c.R, 2, 3, 4, 5, 8, 174))
	return newModDrvOn(c, m, b)
}

// newModDrvOn uses the given store and leaves the package variables alone.
func newModDrvOn(c *Case, m *memDAG, b bspec) *modDrv {
	d := &modDrv{c: c, m: m, ctx: bg}
	nd, data, desc := startFile(c, m, b)
	ch := genChunks(c.R)
	if ch.size > 0 && ch.size < 16 {
		ch.size = 16 // expansions would make very large DAGs
	}
	c.Logf("start: %d bytes, %s (cid %s), chunks %s, links %d", len(data), desc, b.name, ch, h.DefaultLinksPerBlock)
	if c.R.Chance(0.5) {
		var err error
		nd, err = m.Get(bg, nd.Cid())
		c.Must(err, "reload")
	}
	d.model = data
	dm, err := mod.NewDagModifier(d.ctx, nd, m, ch.gen())
	c.Must(err, "open")
	if c.P.ID == "C09" {
		checkDefaults(c, dm, nd)
	}
	if c.R.Chance(0.2) {
		dm.RawLeaves = !dm.RawLeaves
	}
	d.dm, d.start = dm, nd
	d.key = append(d.key, nd.Cid().Bytes()...)
	return d
}

func runMod(c *Case, prop string) {
	if prop != "C10" && c.R.Chance(0.08) {
		runHugeMod(c)
		return
	}
	if prop == "C07" {
		if k := c.R.Intn(100); k < 2 {
			runC07Refuse(c)
			return
		} else if k < 12 {
			runC07Malformed(c)
			return
		}
	}
	b := pick(c.R, modBuilders...)
	d := newModDrv(c, b)
	switch prop {
	case "C07":
		d.runModel()
	case "C09":
		d.runAudit(b)
	case "C10":
		d.runFaults()
	}
}

// startBig turns some cases into ones that write more than the modifier
// buffers, and returns the number of such writes.
func (d *modDrv) startBig() int {
	c := d.c
	if strings.Contains(c.trace[0], "cid v1-identity") || !c.R.Chance(0.004) {
		return 0
	}
	dm, err := mod.NewDagModifier(d.ctx, d.start, d.m, chunkSpec{size: 20000}.gen())
	c.Must(err, "open")
	d.dm = dm
	setLinksPerBlock(pick(c.R, 5, 8, 174))
	return 3
}

func (d *modDrv) bigOp(i int) modOp {
	c := d.c
	c.Count("big_writes", 1)
	if c.R.Chance(0.4) {
		return modOp{kind: "Truncate", off: int64(c.R.Range(5<<20, 20<<20))}
	}
	if c.R.Chance(0.1) {
		return modOp{kind: pick(c.R, "Write", "WriteAt"), data: genData(c.R, c.R.Range(4<<20, 7<<20)), off: int64(c.R.Intn(500))}
	}
	if i == 1 {
		return modOp{kind: "WriteAt", data: genData(c.R, 2200000), off: int64(c.R.Intn(500))}
	}
	return modOp{kind: "Write", data: genData(c.R, 1100000)}
}

func (d *modDrv) runModel() {
	c := d.c
	nops := c.R.Range(5, 60)
	big := d.startBig()
	if big > 0 {
		nops = c.R.Range(5, 15)
	}
	for i := 0; i < nops; i++ {
		o := d.genOp()
		if i < big {
			o = d.bigOp(i)
		}
		c.Logf("%s  [size %d, cursor %d]", o, len(d.model), d.cur)
		d.key = append(d.key, o.kind[0])
		r := d.exec(o)
		d.judge(o, r)
		if o.kind == "GetNode" {
			d.checkNode(r.nd, "content")
		}
		if c.R.Chance(0.2) {
			n, err := d.dm.Size()
			c.Must(err, "size-err")
			c.Check(n == int64(len(d.model)), "size", "after %s Size() = %d, want %d", o, n, len(d.model))
		}
		if c.R.Chance(0.1) {
			n, err := d.dm.Seek(0, io.SeekCurrent)
			c.Must(err, "tell-err")
			if d.cur > int64(len(d.model)) {
				d.model = resize(d.model, d.cur) // a seek beyond the end extends
			}
			c.Check(n == d.cur, "tell", "after %s the cursor is at %d, want %d", o, n, d.cur)
		}
	}
	nd, err := d.dm.GetNode()
	c.Must(err, "getnode")
	d.checkNode(nd, "content")
	c.Check(!d.dm.HasChanges(), "haschanges", "HasChanges after GetNode")
	if x := d.genOp(); len(x.data) > 0 && x.off >= 0 {
		d.judge(x, d.exec(x))
		c.Check(d.dm.HasChanges(), "haschanges-not", "HasChanges is false with %s not yet stored", x)
		c.Must(d.dm.Sync(), "sync")
		c.Check(!d.dm.HasChanges(), "haschanges", "HasChanges after Sync")
		c.Count("haschanges_checked", 1)
	}
	c.Count("operations", nops)
	key := ""
	if d.writes > 0 {
		key = string(d.key)
	}
	c.Eval(key)
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

func (d *modDrv) runAudit(b bspec) {
	c := d.c
	// With the start file in the modifier's own format every new block has to
	// be in it too.
	want := d.dm.Prefix
	mods := 0
	audits := 0
	// Every node has the CID version and hash function of a node of the start
	// file or of the modifier's prefix.
	type format struct {
		version uint64
		hash    uint64
	}
	formats, raws := map[format]bool{}, map[uint64]bool{}
	allow := func(p cid.Prefix) {
		formats[format{p.Version, p.MhType}] = true
		raws[p.MhType] = true
	}
	allow(d.dm.Prefix)
	a0, err := d.m.audit(d.start.Cid())
	c.Must(err, "audit")
	for _, x := range a0.cids {
		allow(x.Prefix())
	}
	inFormat := func(a *auditResult) {
		for _, x := range a.cids {
			p := x.Prefix()
			c.Check(formats[format{p.Version, p.MhType}] || p.Codec == cid.Raw && raws[p.MhType], "foreign-format", "node %s has neither the CID format of the start file nor the modifier's (%v)", x, formats)
		}
		c.Count("formats_checked", len(a.cids))
	}
	nops := c.R.Range(5, 40)
	big := d.startBig()
	if big > 0 {
		want = d.dm.Prefix
		nops = c.R.Range(4, 8)
	}
	for i := 0; i < nops; i++ {
		o := d.genOp()
		if i < big {
			o = d.bigOp(i)
		}
		c.Logf("%s  [size %d, cursor %d]", o, len(d.model), d.cur)
		d.key = append(d.key, o.kind[0])
		r := d.exec(o)
		d.judge(o, r)
		if o.kind == "Write" || o.kind == "WriteAt" || o.kind == "Truncate" {
			mods++
		}
		if o.kind != "GetNode" && !c.R.Chance(0.15) {
			continue
		}
		nd, err := d.dm.GetNode()
		c.Must(err, "getnode")
		a, err := d.m.audit(nd.Cid())
		c.Must(err, "audit")
		c.Check(bytes.Equal(a.content, d.model), "content", "audited content: %s", diffBytes(a.content, d.model))
		inFormat(a)
		stored, err := d.m.get(nd.Cid())
		c.Must(err, "root-stored")
		c.Check(bytes.Equal(stored.RawData(), nd.RawData()), "root-bytes", "returned node differs from the stored block")
		c.Count("audits", 1)
		audits++
		if c.R.Chance(0.3) {
			d.checkNode(stored, "fresh-reader")
		}
		if c.R.Chance(0.25) {
			c.Logf("re-open")
			dm, err := mod.NewDagModifier(bg, stored, d.m, genModChunks(c.R).gen())
			c.Must(err, "reopen")
			checkDefaults(c, dm, stored)
			if c.R.Chance(0.7) {
				dm.RawLeaves = d.dm.RawLeaves
				dm.Prefix = d.dm.Prefix
			}
			want = dm.Prefix
			allow(want)
			d.dm, d.cur = dm, 0
			c.Count("reopened", 1)
			n, err := dm.Size()
			c.Must(err, "size")
			c.Check(n == int64(len(d.model)), "reopened-size", "re-opened modifier: size %d, want %d", n, len(d.model))
		}
		c.State("shapes", fmt.Sprintf("%d/%d/%d/%d", a.nodes, a.leaves, a.raws, a.depth))
	}
	d.m.checkIntegrity(c)
	// leaves appended from here on use exactly the modifier's format
	nd, err := d.dm.GetNode()
	c.Must(err, "getnode")
	before, err := d.m.audit(nd.Cid())
	c.Must(err, "audit")
	old := map[string]bool{}
	for _, x := range before.cids {
		old[x.KeyString()] = true
	}
	if c.R.Chance(0.5) {
		d.dm.RawLeaves = c.R.Chance(0.5)
		if c.R.Chance(0.5) {
			d.dm.Prefix = pick(c.R, builders[1:6]...).b.(cid.Prefix)
		}
	}
	want = d.dm.Prefix
	if _, isRaw := nd.(*mdag.RawNode); isRaw || len(nd.Links()) > 0 || len(d.model) == 0 {
		add := c.R.Bytes(c.R.Range(1, 300))
		_, err = d.dm.WriteAt(add, int64(len(d.model)))
		c.Must(err, "append")
		nd2, err := d.dm.GetNode()
		c.Must(err, "getnode")
		a2, err := d.m.audit(nd2.Cid())
		c.Must(err, "audit")
		for _, x := range a2.leafCid {
			if old[x.KeyString()] {
				continue
			}
			p := x.Prefix()
			c.Check((p.Codec == cid.Raw) == d.dm.RawLeaves, "leaf-format", "appended leaf %s, RawLeaves=%v", x, d.dm.RawLeaves)
			c.Check(p.MhType == want.MhType, "prefix-hash", "appended leaf %s uses hash %x, prefix demands %x", x, p.MhType, want.MhType)
			c.Check(want.MhLength == -1 || want.MhType == mh.IDENTITY || p.MhLength == want.MhLength, "prefix-len", "appended leaf %s has hash length %d, prefix demands %d", x, p.MhLength, want.MhLength)
			if p.Codec != cid.Raw {
				c.Check(p.Version == want.Version, "prefix-version", "appended leaf %s, prefix version %d", x, want.Version)
			}
			c.Count("prefix_checked", 1)
		}
	}
	key := ""
	if mods > 0 && audits > 0 {
		key = string(d.key)
	}
	c.Eval(key)
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

func genModChunks(r *Rng) chunkSpec {
	ch := genChunks(r)
	if ch.size > 0 && ch.size < 16 {
		ch.size = 16
	}
	return ch
}

func (d *modDrv) runFaults() {
	c := d.c
	failed := 0
	nops := c.R.Range(5, 30)
	big := d.startBig()
	if big > 0 {
		nops = c.R.Range(3, 8)
	}
	for i := 0; i < nops; i++ {
		o := d.genOp()
		if i < big {
			o = d.bigOp(i)
		}
		at, sticky := -1, false
		if c.R.Chance(0.5) {
			at = c.R.Intn(12)
			if c.R.Chance(0.3) {
				at = c.R.Intn(60)
			}
			sticky = c.R.Chance(0.5)
		}
		c.Logf("%s  [size %d, cursor %d] fault at %d sticky=%v", o, len(d.model), d.cur, at, sticky)
		d.key = append(d.key, o.kind[0], byte(at))
		k := 0
		fired := false
		ferr := genStoreFault(c, c.R)
		d.m.setFault(func(op Op) error {
			if at < 0 {
				return nil
			}
			k++
			if k-1 == at || sticky && k-1 > at {
				fired = true
				return ferr
			}
			return nil
		})
		r := d.exec(o)
		d.m.setFault(nil)
		_ = fired
		// (an error left in a reader's look-ahead may surface later)
		stale := r.buf != nil && isStoreFault(r.err)
		if r.err == nil || r.err == io.EOF || at < 0 && !stale {
			d.judge(o, r) // success must be real success
			if r.nd != nil {
				d.checkNode(r.nd, "content")
			}
			continue
		}
		nm, nc, ok := d.after(o)
		if !ok {
			c.Count("rejected", 1)
			continue
		}
		failed++
		c.Count("failed_ops", 1)
		c.Count("failed_"+o.kind, 1)
		if o.kind == "CtxReadFull" {
			c.Count("failed_Read", 1)
		}
		c.Logf("  failed: %v", r.err)
		if r.buf != nil {
			want := d.rest(o.n)
			c.Check(int(r.n) <= len(want) && bytes.Equal(r.buf[:r.n], want[:r.n]), "read-wrong", "failed %s at %d delivered wrong bytes", o, d.cur)
			nc = d.cur + r.n
			if c.R.Chance(0.5) { // keep reading on the same modifier
				d.cur = nc
				for t := 0; ; t++ {
					b := make([]byte, 200)
					n, err := d.dm.CtxReadFull(bg, b)
					w := d.rest(200)
					c.Check(n <= len(w) && bytes.Equal(b[:n], w[:n]), "resume-wrong", "reading on after a failed read delivers wrong bytes at %d", d.cur)
					d.cur += int64(n)
					if err == nil || err == io.EOF {
						c.Check(n == len(w), "resume-short", "resumed read: %d of %d bytes", n, len(w))
						break
					}
					c.Check(t < 40, "no-recovery", "reads keep failing on a healthy store: %v", err)
				}
				nc = d.cur
			}
		}
		// the content must be the one before or after
		n, err := d.dm.Size()
		c.Must(err, "size-after-fault")
		c.Check(n == int64(len(d.model)) || n == int64(len(nm)), "size-after-fault", "after a failed %s Size() = %d, before %d, after %d", o, n, len(d.model), len(nm))
		if c.R.Chance(0.3) { // try again
			r2 := d.exec(modOp{kind: "Sync"})
			c.Must(r2.err, "sync-after-fault")
		}
		nd, err := d.dm.GetNode()
		c.Must(err, "getnode-after-fault")
		got := d.content(nd)
		switch {
		case bytes.Equal(got, d.model):
			if !bytes.Equal(nm, d.model) {
				c.Count("kept_before", 1)
			}
		case bytes.Equal(got, nm):
			c.Count("kept_after", 1)
			d.model = nm
		default:
			c.Fail("lost:"+o.kind, "after a failed %s the content is neither the old (%s) nor the new (%s)", o, diffBytes(got, d.model), diffBytes(got, nm))
		}
		_, err = d.m.audit(nd.Cid())
		c.Must(err, "audit-after-fault")
		// set the cursor explicitly
		t := int64(c.R.Intn(len(d.model) + 1))
		p, err := d.dm.Seek(t, io.SeekStart)
		c.Must(err, "seek-after-fault")
		c.Check(p == t, "seek-after-fault", "Seek(%d) = %d", t, p)
		d.cur = t
	}
	nd, err := d.dm.GetNode()
	c.Must(err, "getnode")
	d.checkNode(nd, "content")
	_, _, faults := d.m.stat()
	c.Count("faults_injected", faults)
	key := ""
	if failed > 0 {
		key = string(d.key)
	}
	c.Eval(key)
	c.Sample(head(fmt.Sprint(c.trace), 400))
}
