package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	mod "github.com/ipfs/go-unixfs/mod"
)

func init() {
	register(&Prop{
		ID: "C29", Quick: 30000, Thorough: 200000, Leak: true,
		Rule:        "a case lets one store operation (or all from one on) of one operation never be answered and cancels the operation's context (or closes the reader, or moves the modifier) at that moment; the watchdog reports an operation that never returns, the store one that is never given up; non-trivial = the operation did reach the unanswered store operation, keyed by input, operation and position",
		Assumptions: []string{"the store itself gives up when the context it was given is cancelled", "operations whose interface takes no context (importing, serializing a shard, the verifier) are outside"},
		Required:    []string{"dir_AddChild", "dir_RemoveChild", "dir_Find", "dir_list", "shard_ops", "reader_opens", "reader_reads", "reader_ctxreads", "reader_closed", "modifier_ops", "lookahead_closed", "lookahead_left", "appends", "resolves", "tree_walks", "failed_listings", "unanswered", "continued"},
		Run:         runC29,
	})
}

// silent is one plan of a store that stops answering.
type silent struct {
	c     *Case
	m     *memDAG
	fired atomic.Bool
	n     atomic.Int64
}

// silence makes the pos-th operation that counts (and with sticky all later
// ones) go unanswered; then runs once, as soon as that happens.
func silence(c *Case, m *memDAG, pos int, sticky bool, counts func(Op) bool, then func()) *silent {
	s := &silent{c: c, m: m}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.release = make(chan struct{})
	m.hung = 0
	m.hang = func(op Op) bool {
		if counts != nil && !counts(op) {
			return false
		}
		k := int(s.n.Add(1)) - 1
		if k < pos || k > pos && !sticky {
			return false
		}
		if s.fired.CompareAndSwap(false, true) && then != nil {
			then()
		}
		return true
	}
	return s
}

// answer lets the store work again.
func (s *silent) answer() {
	s.m.mu.Lock()
	defer s.m.mu.Unlock()
	s.m.hang = nil
}

// given checks that nothing waits for the store any more (or only things that
// are about to give up), and ends the plan.
func (s *silent) given(what string) {
	left := s.m.stuck()
	s.m.mu.Lock()
	n := s.m.hung
	s.m.mu.Unlock()
	s.answer()
	close(s.m.release)
	s.c.Check(left == 0, "left:"+what, "%s: %d of %d unanswered fetches still wait for the store", what, left, n)
	if n > 0 {
		s.c.Count("unanswered", n)
	}
}

// stuck waits until nothing waits for the store or nothing can change any
// more, and returns the number of operations that still wait.
func (m *memDAG) stuck() int {
	stable := 0
	for {
		m.mu.Lock()
		n := m.waiting
		m.mu.Unlock()
		if n == 0 {
			return 0
		}
		progress := false
		for i, g := range goroutines() {
			progress = progress || i > 0 && canProgress(g.state) && !strings.Contains(g.stack, "main.(*Worker).watchdog")
		}
		if progress {
			stable = 0
		} else if stable++; stable >= 6 {
			return n
		}
		runtime.Gosched()
		time.Sleep(300 * time.Microsecond)
	}
}

func runC29(c *Case) {
	switch k := c.R.Intn(100); {
	case k < 30:
		cancelDirectory(c)
	case k < 40:
		cancelShard(c)
	case k < 60:
		cancelReader(c)
	case k < 72:
		cancelModifier(c)
	case k < 82:
		cancelLookahead(c)
	case k < 88:
		cancelAppend(c)
	case k < 93:
		cancelResolve(c)
	default:
		cancelTree(c)
	}
}

// failOne makes the pos-th store operation fail and all later ones go
// unanswered: a listing then ends, with the failure.
func failOne(c *Case, m *memDAG, pos int) *silent {
	s := &silent{c: c, m: m}
	bad := -1
	m.mu.Lock()
	defer m.mu.Unlock()
	m.release = make(chan struct{})
	m.hung = 0
	m.fault = func(op Op) error { // under mu
		if pos--; pos == -1 {
			bad = op.N
			s.fired.Store(true)
			return errInjected
		}
		return nil
	}
	m.hang = func(op Op) bool {
		m.mu.Lock()
		defer m.mu.Unlock()
		return bad >= 0 && op.N != bad
	}
	return s
}

func (s *silent) listingFailed(what, key string, err error) string {
	s.m.setFault(nil)
	s.given(what)
	s.c.Logf("%s: failed=%v -> %v", what, s.fired.Load(), err)
	if !s.fired.Load() {
		return ""
	}
	s.c.Check(err != nil, "failure-hidden", "%s: one fetch failed, but the listing succeeded", what)
	s.c.Count("failed_listings", 1)
	return what + key
}

func cancelDirectory(c *Case) {
	r := c.R
	cfg := genDirCfg(r)
	if cfg.threshold != 0 {
		cfg.hamt = false
	}
	d := newDirDrv(c, cfg, r.Range(4, 60))
	for i := r.Range(2, 60); i > 0; i-- {
		d.mutate(0.85)
	}
	root, err := d.dir.GetNode()
	c.Must(err, "getnode")
	c.Must(d.m.Add(bg, root), "add")
	base := cloneModel(d.model)
	for k := 0; k < 4; k++ {
		d.model = base
		fresh, err := d.m.get(root.Cid())
		c.Must(err, "reload")
		d.dir, err = uio.NewDirectoryFromNode(d.m, fresh)
		c.Must(err, "fromnode")
		if r.Chance(0.3) {
			d.dir.Find(bg, r.pickStr(d.names))
		}
		kind := pick(r, "AddChild", "RemoveChild", "Find", "list")
		name := r.pickStr(d.names)
		if p := d.present(); p != "" && r.Chance(0.7) {
			name = p
		}
		nd := d.nodes[r.Intn(len(d.nodes))]
		e, had := base[name]
		after := cloneModel(base)
		pos, sticky, early := r.Intn(pick(r, 1, 3, 8, 20)), r.Chance(0.6), r.Chance(0.15)
		if kind == "list" && r.Chance(0.4) {
			q := failOne(c, d.m, pos)
			how, ls, err := listVia(bg, d.dir, r.Intn(3))
			if err == nil && !q.fired.Load() {
				compareListing(c, how, ls, base)
			}
			c.Eval(q.listingFailed(how, fmt.Sprint(root.Cid(), pos), err))
			continue
		}
		ctx, cancel := context.WithCancel(bg)
		s := silence(c, d.m, pos, sticky, nil, cancel)
		if early {
			cancel()
		}
		var got ipld.Node
		switch kind {
		case "AddChild":
			err = d.dir.AddChild(ctx, name, nd)
			after[name] = linkEntry(nd)
		case "RemoveChild":
			err = d.dir.RemoveChild(ctx, name)
			delete(after, name)
		case "Find":
			got, err = d.dir.Find(ctx, name)
		default:
			way := r.Intn(3)
			var how string
			var ls []*ipld.Link
			how, ls, err = listVia(ctx, d.dir, way)
			if err == nil && (way < 2 || ctx.Err() == nil) {
				compareListing(c, how, ls, base)
			}
		}
		c.Logf("%s %q: unanswered at %d sticky=%v early=%v fired=%v -> %v", kind, name, pos, sticky, early, s.fired.Load(), err)
		cancelled := s.fired.Load() || early
		cancel()
		s.given(kind)
		switch {
		case err == nil && kind == "Find":
			c.Check(had && got.Cid().Equals(e.Cid), "find-wrong", "Find %q returned a wrong node", name)
		case err == nil && kind != "list":
			c.Check(had || kind == "AddChild", "false-success", "removing the missing %q succeeded", name)
			d.model = after
		case errors.Is(err, os.ErrNotExist):
			c.Check(!had && kind != "AddChild", "false-notexist", "%s %q returned %v", kind, name, err)
		case err != nil:
			c.Check(cancelled, "error-without-cancel", "%s %q: %v", kind, name, err)
			c.Count("cancelled_ops", 1)
		}
		how, ls, err := listVia(bg, d.dir, r.Intn(3))
		c.Must(err, "list")
		compareListing(c, how+" after "+kind, ls, d.model)
		d.checkCanonical("cid")
		c.Count("dir_"+kind, 1)
		key := ""
		if cancelled {
			key = fmt.Sprint(root.Cid(), kind, name, pos, sticky, early)
			c.Count("continued", 1)
		}
		c.Eval(key)
	}
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

func cancelShard(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	width := pick(r, 8, 8, 16, 64, 256)
	s0, err := hamt.NewShard(m, width)
	c.Must(err, "new")
	names := separable(genNames(r, r.Range(2, 80), width, false), width)
	nodes := genEntryNodes(c, m, 4)
	base := map[string]rEntry{}
	for _, n := range names {
		nd := nodes[r.Intn(len(nodes))]
		if r.Chance(0.8) {
			c.Must(s0.Set(bg, n, nd), "set")
			base[n] = linkEntry(nd)
		}
	}
	root, err := s0.Node()
	c.Must(err, "node")
	for k := 0; k < 4; k++ {
		fresh, err := m.get(root.Cid())
		c.Must(err, "reload")
		s, err := hamt.NewHamtFromDag(m, fresh)
		c.Must(err, "fromdag")
		kind := pick(r, "Set", "SetLink", "Swap", "Remove", "Take", "Find", "EnumLinks", "ForEachLink", "EnumLinksAsync")
		name := ""
		if len(names) > 0 {
			name = r.pickStr(names)
		} else {
			name = "x"
		}
		nd := nodes[r.Intn(len(nodes))]
		e, had := base[name]
		after := cloneModel(base)
		pos, sticky := r.Intn(pick(r, 1, 3, 8)), r.Chance(0.6)
		if r.Chance(0.15) {
			q := failOne(c, m, pos)
			_, err := s.EnumLinks(bg)
			c.Eval(q.listingFailed("EnumLinks", fmt.Sprint(root.Cid(), pos), err))
			continue
		}
		ctx, cancel := context.WithCancel(bg)
		q := silence(c, m, pos, sticky, nil, cancel)
		var got *ipld.Link
		var ls []*ipld.Link
		prev := false // returns the previous link
		switch kind {
		case "Set":
			err = s.Set(ctx, name, nd)
		case "SetLink":
			var l *ipld.Link
			l, err = ipld.MakeLink(nd)
			c.Must(err, "makelink")
			err = s.SetLink(ctx, name, l)
		case "Swap":
			got, err = s.Swap(ctx, name, nd)
			prev = had
		case "Remove":
			err = s.Remove(ctx, name)
		case "Take":
			got, err = s.Take(ctx, name)
			prev = true
		case "Find":
			got, err = s.Find(ctx, name)
			prev = true
		case "EnumLinks":
			ls, err = s.EnumLinks(ctx)
		case "ForEachLink":
			err = s.ForEachLink(ctx, func(l *ipld.Link) error { x := *l; ls = append(ls, &x); return nil })
		default:
			for x := range s.EnumLinksAsync(ctx) {
				if x.Err != nil {
					err = x.Err
					continue
				}
				ls = append(ls, x.Link)
			}
			if err == nil {
				err = ctx.Err()
			}
		}
		fired := q.fired.Load()
		cancel()
		c.Logf("%s %q: unanswered at %d sticky=%v fired=%v -> %v", kind, name, pos, sticky, fired, err)
		q.given(kind)
		model := base
		switch {
		case errors.Is(err, os.ErrNotExist):
			c.Check(!had && (kind == "Remove" || kind == "Take" || kind == "Find"), "false-notexist", "%s %q: %v", kind, name, err)
		case err != nil:
			c.Check(fired, "error-without-cancel", "%s %q: %v", kind, name, err)
		default:
			if prev {
				c.Check(had && got != nil && got.Cid.Equals(e.Cid), "link-wrong", "%s %q returned %v", kind, name, got)
			}
			switch kind {
			case "Set", "SetLink", "Swap":
				after[name] = linkEntry(nd)
				model = after
			case "Remove", "Take":
				c.Check(had, "false-success", "%s of the missing %q succeeded", kind, name)
				delete(after, name)
				model = after
			case "EnumLinks", "ForEachLink", "EnumLinksAsync":
				compareListing(c, kind, ls, base)
			}
		}
		all, err := s.EnumLinks(bg)
		c.Must(err, "enum")
		compareListing(c, "EnumLinks after "+kind, all, model)
		c.Count("shard_ops", 1)
		key := ""
		if fired {
			key = fmt.Sprint(root.Cid(), kind, name, pos, sticky)
			c.Count("continued", 1)
		}
		c.Eval(key)
	}
}

func cancelReader(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	nd, data, desc := genFile(c, m, 6000)
	nd, err := m.get(nd.Cid())
	c.Must(err, "get")
	meta := r.Chance(0.15) && nd.Cid().Prefix().Codec != 0x55
	if meta {
		nd = wrapMetadata(c, m, nd)
	}
	pos, sticky := r.Intn(pick(r, 1, 3, 10, 40)), r.Chance(0.6)
	how := pick(r, "open-ctx", "own-ctx", "own-ctx", "close")
	c.Logf("%s, %d bytes, metadata=%v: %s, unanswered at %d sticky=%v", desc, len(data), meta, how, pos, sticky)
	fired := func(s *silent) string {
		if !s.fired.Load() {
			return ""
		}
		return fmt.Sprint(nd.Cid(), how, pos, sticky, c.Seed)
	}
	if meta {
		ctx, cancel := context.WithCancel(bg)
		s := silence(c, m, 0, true, nil, cancel)
		_, err := uio.NewDagReader(ctx, nd, m)
		cancel()
		c.Check(err != nil, "opened", "a reader was opened without the file's root")
		s.given("open")
		c.Count("reader_opens", 1)
		c.Eval(fired(s))
		return
	}
	// readSome calls the reader until it fails or ends, checking the bytes.
	at := int64(0)
	readSome := func(dr uio.DagReader, ctx context.Context, only string) error {
		for {
			kind := only
			if kind == "" {
				kind = pick(r, "Read", "Read", "CtxReadFull", "Seek", "WriteTo")
			}
			switch kind {
			case "Read", "CtxReadFull":
				b := make([]byte, r.Range(1, pick(r, 10, 300, 3000)))
				var n int
				var err error
				if kind == "Read" {
					n, err = dr.Read(b)
				} else {
					n, err = dr.CtxReadFull(ctx, b)
				}
				end := min(at+int64(n), int64(len(data)))
				c.Check(at+int64(n) <= int64(len(data)) && bytes.Equal(b[:n], data[at:end]), "wrong-bytes", "%s of %d at %d: %d wrong bytes", kind, len(b), at, n)
				at = end
				if err != nil {
					c.Check(err != io.EOF || at == int64(len(data)), "false-eof", "EOF at %d of %d", at, len(data))
					return err
				}
				c.Check(n == len(b), "short", "%s of %d gives %d without an error", kind, len(b), n)
			case "Seek":
				to := int64(r.Intn(len(data) + 1))
				p, err := dr.Seek(to, io.SeekStart)
				if err != nil {
					return err
				}
				c.Check(p == to, "seek", "%d, want %d", p, to)
				at = to
			case "WriteTo":
				var w bytes.Buffer
				_, err := dr.WriteTo(&w)
				end := min(at+int64(w.Len()), int64(len(data)))
				c.Check(bytes.Equal(w.Bytes(), data[at:end]), "wrong-bytes", "WriteTo at %d: wrong bytes", at)
				at = end
				if err != nil {
					return err
				}
				c.Check(at == int64(len(data)), "short", "WriteTo ended at %d of %d", at, len(data))
				return io.EOF
			}
		}
	}
	switch how {
	case "open-ctx":
		ctx, cancel := context.WithCancel(bg)
		dr, err := uio.NewDagReader(ctx, nd, m)
		c.Must(err, "open")
		s := silence(c, m, pos, sticky, nil, cancel)
		err = readSome(dr, ctx, "")
		c.Check(err == io.EOF || s.fired.Load(), "error-without-cancel", "%v", err)
		cancel()
		s.given(how)
		c.Count("reader_reads", 1)
		c.Eval(fired(s))
	case "close":
		dr, err := uio.NewDagReader(bg, nd, m)
		c.Must(err, "open")
		s := silence(c, m, pos, sticky, nil, func() { dr.Close() })
		err = readSome(dr, bg, pick(r, "Read", "WriteTo"))
		c.Check(err == io.EOF || s.fired.Load(), "error-without-close", "%v", err)
		c.Must(dr.Close(), "close")
		s.given(how)
		c.Count("reader_closed", 1)
		c.Eval(fired(s))
	case "own-ctx":
		dr, err := uio.NewDagReader(bg, nd, m)
		c.Must(err, "open")
		defer dr.Close()
		key := ""
		for k := r.Range(1, 3); k > 0; k-- {
			ctx, cancel := context.WithCancel(bg)
			s := silence(c, m, pos, sticky, nil, cancel)
			err = readSome(dr, ctx, "CtxReadFull")
			c.Logf("read up to %d: %v", at, err)
			c.Check(err == io.EOF || s.fired.Load(), "error-without-cancel", "%v", err)
			cancel()
			s.given(how)
			key += fired(s)
			c.Count("reader_ctxreads", 1)
		}
		// on under another context
		if r.Chance(0.4) {
			to := int64(r.Intn(len(data) + 1))
			_, err = dr.Seek(to, io.SeekStart)
			c.Must(err, "seek")
			at = to
		}
		err = readSome(dr, bg, pick(r, "Read", "CtxReadFull", "WriteTo"))
		c.Check(err == io.EOF, "continue", "after a cancelled read: %v at %d", err, at)
		c.Check(at == int64(len(data)), "continue-short", "after a cancelled read: %d of %d bytes", at, len(data))
		c.Count("continued", 1)
		c.Eval(key)
	}
}

func notAdd(op Op) bool { return op.Kind != "add" }

func cancelModifier(c *Case) {
	r := c.R
	b := pick(r, modBuilders...)
	d := newModDrv(c, b)
	if r.Chance(0.4) {
		d.cancelReads()
		return
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	nd := d.start
	dm, err := mod.NewDagModifier(ctx, nd, d.m, chunkSpec{size: pick(r, 16, 30, 100)}.gen())
	c.Must(err, "open")
	d.dm, d.ctx = dm, ctx
	s := silence(c, d.m, r.Intn(pick(r, 1, 3, 10, 30)), r.Chance(0.6), notAdd, cancel)
	var done string
	for i := r.Range(1, 25); i > 0 && !s.fired.Load(); i-- {
		o := d.genOp()
		done = o.kind
		c.Logf("%s  [size %d, cursor %d]", o, len(d.model), d.cur)
		res := d.exec(o)
		if !s.fired.Load() {
			d.judge(o, res)
			continue
		}
		c.Logf("  -> %v", res.err)
		c.Count("modifier_cancelled_"+o.kind, 1)
	}
	cancel()
	s.given("modifier " + done)
	c.Count("modifier_ops", 1)
	key := ""
	if s.fired.Load() {
		key = fmt.Sprint(nd.Cid(), c.trace)
	}
	c.Eval(key)
}

// cancelReads: of the operations on a modifier only reads under contexts of
// their own are cancelled; the modifier works on.
func (d *modDrv) cancelReads() {
	c, r := d.c, d.c.R
	key := ""
	do := func(o modOp) {
		c.Logf("%s  [size %d, cursor %d]", o, len(d.model), d.cur)
		d.judge(o, d.exec(o))
	}
	for i := r.Range(2, 12); i > 0; i-- {
		if r.Chance(0.5) {
			do(d.genOp())
			continue
		}
		do(modOp{kind: "Read", n: r.Intn(20)}) // the modifier's own part: writing out, positioning
		d.m.settle()
		ctx, cancel := context.WithCancel(bg)
		s := silence(c, d.m, r.Intn(pick(r, 1, 3, 10)), r.Chance(0.6), nil, cancel)
		d.ctx = ctx
		o := modOp{kind: "CtxReadFull", n: r.Range(1, pick(r, 30, 700))}
		res := d.exec(o)
		d.ctx = bg
		cancel()
		fired := s.fired.Load()
		c.Logf("%s  [size %d, cursor %d], unanswered=%v: %d, %v", o, len(d.model), d.cur, fired, res.n, res.err)
		s.given("modifier CtxReadFull")
		c.Count("modifier_ops", 1)
		if !fired || res.err == nil || res.err == io.EOF {
			d.judge(o, res)
			continue
		}
		want := d.rest(o.n)
		c.Check(int(res.n) <= len(want) && bytes.Equal(res.buf[:res.n], want[:res.n]), "wrong-bytes", "the cancelled %s at %d delivered %d bytes, %s", o, d.cur, res.n, diffBytes(res.buf[:res.n], want))
		d.cur += res.n
		key = fmt.Sprint(d.start.Cid(), c.trace)
		c.Count("continued", 1)
	}
	do(modOp{kind: "GetNode"})
	c.Eval(key)
}

// cancelLookahead: what a reader fetched ahead is given up once the reader is
// closed, or the modifier it serves writes or truncates.
func cancelLookahead(c *Case) {
	r := c.R
	m := newMemDAG()
	nd, data, desc := localFile(c, m)
	nd, err := m.get(nd.Cid())
	c.Must(err, "get")
	off := int64(r.Intn(len(data) + 1))
	if r.Chance(0.3) {
		off = 0
	}
	// Only what the read needs is answered.
	occs, _, _, err := fileMap(m, nd.Cid())
	c.Must(err, "map")
	ahead := func(op Op) bool {
		for _, o := range occs[string(op.Cid.Hash())] {
			if o.start <= off && off <= o.end {
				return false
			}
		}
		return op.Kind == "many"
	}
	one := make([]byte, 1)
	how := pick(r, "Close", "Write", "WriteAt", "Truncate", "Grow", "Seek")
	c.Logf("%s, %d bytes, one byte read at %d, then %s", desc, len(data), off, how)
	var s *silent
	if how == "Close" {
		dr, err := uio.NewDagReader(bg, nd, m)
		c.Must(err, "open")
		s = silence(c, m, 0, true, ahead, nil)
		_, err = dr.Seek(off, io.SeekStart)
		c.Must(err, "seek")
		_, err = dr.Read(one)
		c.Check(err == nil || err == io.EOF && off == int64(len(data)), "read", "one byte at %d: %v", off, err)
		c.Must(dr.Close(), "close")
		c.Count("lookahead_closed", 1)
	} else {
		dm, err := mod.NewDagModifier(bg, nd, m, chunkSpec{size: 50}.gen())
		c.Must(err, "modifier")
		_, err = dm.Seek(off, io.SeekStart)
		c.Must(err, "seek")
		s = silence(c, m, 0, true, ahead, nil)
		_, err = dm.Read(one)
		c.Check(err == nil || err == io.EOF && off == int64(len(data)), "read", "one byte at %d: %v", off, err)
		switch how {
		case "Write":
			_, err = dm.Write([]byte("x"))
		case "WriteAt":
			_, err = dm.WriteAt([]byte("x"), int64(r.Intn(len(data)+1)))
		case "Truncate":
			if len(data) == 0 {
				_, err = dm.Write([]byte("x"))
			} else {
				err = dm.Truncate(int64(r.Intn(len(data))))
			}
		case "Grow":
			err = dm.Truncate(int64(len(data) + 100))
		case "Seek":
			_, err = dm.Seek(int64(len(data)+50), io.SeekStart)
		}
		c.Must(err, how)
		c.Count("lookahead_left", 1)
	}
	key := ""
	if s.fired.Load() {
		key = fmt.Sprint(nd.Cid(), how, off)
	}
	s.given("look-ahead " + how)
	c.Eval(key)
}

func cancelAppend(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	s := genImp(r)
	s.trickle = true
	s.maxlinks = pick(r, 2, 3, 4, 5)
	base, err := s.importBytes(m, r.Bytes(s.genLen(r, 300)))
	c.Must(err, "import")
	base, err = m.get(base.Cid())
	c.Must(err, "get")
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	q := silence(c, m, r.Intn(pick(r, 1, 3, 6)), r.Chance(0.6), notAdd, cancel)
	p := s.params(m)
	db, err := p.New(s.ch.splitter(bytes.NewReader(r.Bytes(s.genLen(r, 60) + 1))))
	c.Must(err, "builder")
	id := base.Cid()
	_, err = trickle.Append(ctx, base, db)
	c.Logf("append to %s: fired=%v -> %v", s, q.fired.Load(), err)
	c.Check((err != nil) == q.fired.Load(), "append", "unanswered fetch=%v, append returned %v", q.fired.Load(), err)
	q.given("append")
	c.Count("appends", 1)
	key := ""
	if q.fired.Load() {
		key = fmt.Sprint(id, c.Seed)
	}
	c.Eval(key)
}

func cancelResolve(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	root, _, _, _ := storedShard(c, m, pick(r, 8, 16), r.Range(1, 200))
	nd, err := m.get(root)
	c.Must(err, "get")
	dir, err := uio.NewDirectoryFromNode(m, nd)
	c.Must(err, "dir")
	ls, err := dir.Links(bg)
	c.Must(err, "links")
	var names []string
	for _, l := range ls {
		names = append(names, l.Name)
	}
	sort.Strings(names)
	for k := 0; k < 4; k++ {
		name := r.pickStr(names)
		ctx, cancel := context.WithCancel(bg)
		pos := r.Intn(3)
		q := silence(c, m, pos, true, nil, cancel)
		l, _, err := uio.ResolveUnixfsOnce(ctx, m, nd, []string{name, "rest"})
		cancel()
		c.Check((err != nil) == q.fired.Load(), "resolve", "%q: unanswered=%v, returned %v, %v", name, q.fired.Load(), l, err)
		c.Check(!errors.Is(err, os.ErrNotExist), "resolve-notexist", "%q: %v", name, err)
		key := ""
		if q.fired.Load() {
			key = fmt.Sprint(root, name, pos)
		}
		q.given("resolve")
		c.Count("resolves", 1)
		c.Eval(key)
	}
}

func cancelTree(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	t := genDirTree(c, m, 2, 12)
	nd, err := m.get(t.nd.Cid())
	c.Must(err, "get")
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	pos := r.Intn(pick(r, 1, 4, 12, 40))
	q := silence(c, m, pos, r.Chance(0.6), nil, cancel)
	f, err := unixfile.NewUnixfsFile(ctx, m, nd)
	c.Must(err, "open")
	var st walkStat
	err = walkTree(r, f.(files.Node), t, "", &st, false)
	var bad walkBad
	if errors.As(err, &bad) {
		c.Fail("walk:"+bad.sig, "%s", bad.msg)
	}
	c.Logf("walk: unanswered at %d, fired=%v -> %v", pos, q.fired.Load(), err)
	c.Check(err == nil || q.fired.Load(), "error-without-cancel", "%v", err)
	cancel()
	q.given("tree")
	c.Count("tree_walks", 1)
	key := ""
	if q.fired.Load() {
		key = fmt.Sprint(nd.Cid(), pos)
	}
	c.Eval(key)
}
