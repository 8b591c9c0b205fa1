package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
)

// genFile stores a file of some shape and returns its root.
func genFile(c *Case, m *memDAG, maxBytes int) (ipld.Node, []byte, string) {
	switch c.R.Intn(6) {
	case 0: // arbitrary well-formed tree
		d := genUnique(c.R, c.R.Intn(maxBytes))
		b := pick(c.R, builders...)
		nd, err := buildManual(c.R, m, d, b)
		c.Must(err, "build")
		return nd, d, "manual " + b.name
	case 1: // single raw or protobuf leaf
		d := genUnique(c.R, c.R.Intn(200))
		var nd ipld.Node
		switch c.R.Intn(3) {
		case 0:
			nd = mdag.NewRawNode(d)
		case 1:
			nd = mdag.NodeWithData(ft.WrapData(d))
		default:
			nd = mdag.NodeWithData(ft.FilePBData(d, uint64(len(d))))
		}
		c.Must(m.Add(bg, nd), "add")
		return nd, d, "leaf"
	default:
		s := genImp(c.R)
		n := s.genLen(c.R, 300)
		if n > maxBytes {
			n = c.R.Intn(maxBytes)
		}
		d := genUnique(c.R, n)
		if c.R.Chance(0.2) {
			d = genData(c.R, n)
		}
		nd, err := s.importBytes(m, d)
		c.Must(err, "import")
		return nd, d, s.String()
	}
}

func genUnique(r *Rng, n int) []byte { return r.Bytes(n) }

// wrapMetadata wraps a file in a metadata node. Readers only support
// protobuf files below it.
func wrapMetadata(c *Case, m *memDAG, nd ipld.Node) ipld.Node {
	b, err := ft.BytesForMetadata(&ft.Metadata{MimeType: "text/plain", Size: 3})
	c.Must(err, "metadata")
	w := mdag.NodeWithData(b)
	c.Must(w.AddNodeLink("", nd), "link")
	c.Must(m.Add(bg, w), "add")
	return w
}

type limitWriter struct {
	buf   bytes.Buffer
	left  int
	short bool // short write without error
}

var errWriter = errors.New("zverif: writer full")

func (w *limitWriter) Write(b []byte) (int, error) {
	if len(b) <= w.left {
		w.left -= len(b)
		w.buf.Write(b)
		return len(b), nil
	}
	n := w.left
	w.buf.Write(b[:n])
	w.left = 0
	if w.short {
		return n, nil
	}
	return n, errWriter
}

func init() {
	register(&Prop{
		ID: "C04", Quick: 36000, Thorough: 540000,
		Rule:        "a case drives one reader over one generated file with 5..60 operations and compares every result with a cursor over the content; non-trivial = multi-block file and at least one successful seek or partial WriteTo, keyed by root and operation list",
		Assumptions: []string{"files whose data sits in the leaves; healthy store"},
		Required:    []string{"seeks", "partial_writeto", "seeks_past_end", "rejected_seeks", "metadata_files", "refused_opens", "huge_seeks"},
		Run:         runC04,
	})
	register(&Prop{
		ID: "C05", Level: "fault_enumeration", Quick: 30000, Thorough: 431999,
		Rule:        "a case drives one reader with 5..40 operations while fetches fail, blocks go missing, contexts are cancelled and the reader may be closed, then heals the store and reads on; non-trivial = at least one call failed, keyed by root and history",
		Assumptions: []string{"after the store heals, 40 consecutive failing calls without progress count as not recovering (look-ahead promises may hold old errors)"},
		Required:    []string{"failed_calls", "recoveries", "cancelled_calls", "closed_readers", "failed_seeks", "blocked_then_cancelled", "malformed_failed_calls"},
		Run:         runC05,
	})
}

func runC04(c *Case) {
	if c.R.Chance(0.05) {
		runC04Refuse(c)
		return
	}
	if c.R.Chance(0.06) {
		runC04Huge(c)
		return
	}
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	nd, d, desc := genFile(c, m, 6000)
	if _, ok := nd.(*mdag.ProtoNode); ok && c.R.Chance(0.15) {
		nd = wrapMetadata(c, m, nd)
		desc += " in metadata"
		c.Count("metadata_files", 1)
	}
	c.Logf("file of %d bytes: %s", len(d), desc)
	if c.R.Chance(0.5) {
		var err error
		nd, err = m.Get(bg, nd.Cid())
		c.Must(err, "reload")
	}
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "open")
	pos := int64(0)
	size := int64(len(d))
	rest := func() []byte {
		if pos >= size {
			return nil
		}
		return d[pos:]
	}
	interesting := 0
	var key []byte
	nops := c.R.Range(5, 60)
	for op := 0; op < nops; op++ {
		k := c.R.Intn(10)
		key = append(key, byte(k))
		switch {
		case k < 4: // read
			n := c.R.Intn(200)
			if c.R.Chance(0.1) {
				n = int(size) + c.R.Intn(5)
			}
			if c.R.Chance(0.1) {
				n = 0
			}
			b := make([]byte, n)
			var got int
			var err error
			if c.R.Chance(0.5) {
				c.Logf("Read(%d) at %d", n, pos)
				got, err = dr.Read(b)
			} else {
				c.Logf("CtxReadFull(%d) at %d", n, pos)
				got, err = dr.CtxReadFull(bg, b)
			}
			want := rest()
			if len(want) > n {
				want = want[:n]
			}
			c.Check(got == len(want), "read-n", "read of %d at %d/%d returned %d bytes (err %v)", n, pos, size, got, err)
			c.Check(bytes.Equal(b[:got], want), "read-data", "read of %d at %d: %s", n, pos, diffBytes(b[:got], want))
			pos += int64(got)
			if got < n {
				c.Check(err == io.EOF, "read-eof", "short read at the end returned %v", err)
			} else if err != nil {
				c.Check(err == io.EOF && pos >= size, "read-err", "full read of %d at %d/%d returned %v", n, pos, size, err)
			}
			c.Count("reads", 1)
		case k < 8: // seek
			var off int64
			wh := c.R.Intn(3)
			var target int64
			if c.R.Chance(0.15) {
				target = size + int64(c.R.Intn(100))
			} else if c.R.Chance(0.1) {
				target = -int64(c.R.Range(1, 50))
			} else {
				target = int64(c.R.Intn(int(size) + 1))
			}
			switch wh {
			case io.SeekStart:
				off = target
			case io.SeekCurrent:
				off = target - pos
			case io.SeekEnd:
				off = target - size
			}
			c.Logf("Seek(%d,%d) at %d", off, wh, pos)
			if c.R.Chance(0.03) {
				_, err := dr.Seek(off, 3+c.R.Intn(5))
				c.Check(err != nil, "seek-whence", "unknown whence accepted")
				continue
			}
			got, err := dr.Seek(off, wh)
			if target < 0 {
				c.Check(err != nil, "seek-negative", "seek to %d accepted (returned %d)", target, got)
				c.Count("rejected_seeks", 1)
			} else {
				c.Must(err, "seek")
				c.Check(got == target, "seek-pos", "seek to %d returned %d", target, got)
				if target > size {
					c.Count("seeks_past_end", 1)
				}
				pos = target
				interesting++
			}
			c.Count("seeks", 1)
			if c.R.Chance(0.5) {
				got, err = dr.Seek(0, io.SeekCurrent)
				c.Must(err, "tell")
				c.Check(got == pos, "tell", "cursor reported at %d, expected %d", got, pos)
			}
		case k == 8: // WriteTo
			want := rest()
			if c.R.Chance(0.3) || len(want) == 0 {
				var buf bytes.Buffer
				c.Logf("WriteTo at %d", pos)
				n, err := dr.WriteTo(&buf)
				c.Must(err, "writeto")
				c.Check(n == int64(len(want)) && bytes.Equal(buf.Bytes(), want), "writeto-data", "WriteTo at %d: returned %d, %s", pos, n, diffBytes(buf.Bytes(), want))
				pos += n
			} else {
				w := &limitWriter{left: c.R.Intn(len(want)), short: c.R.Chance(0.2)}
				lim := w.left
				c.Logf("WriteTo at %d, writer takes %d (short=%v)", pos, lim, w.short)
				n, err := dr.WriteTo(w)
				c.Check(err != nil, "writeto-err", "WriteTo to a failing writer returned no error")
				c.Check(n == int64(lim) && bytes.Equal(w.buf.Bytes(), want[:lim]), "writeto-partial", "WriteTo at %d: writer took %d, returned %d, %s", pos, lim, n, diffBytes(w.buf.Bytes(), want[:lim]))
				pos += n
				interesting++
				c.Count("partial_writeto", 1)
				// the cursor must now stand after the accepted bytes
				got, err := dr.Seek(0, io.SeekCurrent)
				c.Must(err, "tell")
				c.Check(got == pos, "tell-after-writeto", "after a partial WriteTo the cursor is reported at %d, expected %d", got, pos)
			}
			c.Count("writetos", 1)
		default:
			c.Check(dr.Size() == uint64(size), "size", "Size() = %d, want %d", dr.Size(), size)
		}
	}
	kk := ""
	if interesting > 0 && len(nd.Links()) > 0 {
		kk = nd.Cid().String() + string(key)
	}
	c.Eval(kk)
	c.Count("operations", nops)
	c.State("op_sequences", string(key))
	c.Sample(fmt.Sprintf("%d bytes, %s: %v", len(d), desc, head(fmt.Sprint(c.trace), 300)))
}

func runC05(c *Case) {
	if c.R.Chance(0.15) {
		runC05Blocked(c)
		return
	}
	if c.R.Chance(0.2) {
		runC05Malformed(c)
		return
	}
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	nd, d, desc := genFile(c, m, 6000)
	c.Logf("file of %d bytes: %s", len(d), desc)
	root, err := m.Get(bg, nd.Cid())
	c.Must(err, "reload")
	size := int64(len(d))
	// fault plan
	fr := newRng(c.Seed + 2)
	var bad map[string]bool
	p := 0.0
	var cancelAt int
	var cancelFn context.CancelFunc
	faulty := true
	var ferr error
	m.setFault(func(o Op) error {
		if !faulty {
			return nil
		}
		if cancelFn != nil {
			cancelAt--
			if cancelAt <= 0 {
				cancelFn()
			}
		}
		if bad[string(o.Cid.Hash())] {
			return ipld.ErrNotFound
		}
		if p > 0 && fr.Chance(p) {
			if fr.Chance(0.5) {
				return errMissing
			}
			return ferr
		}
		return nil
	})
	newPlan := func() {
		m.mu.Lock()
		defer m.mu.Unlock()
		ferr = genStoreFault(c, c.R)
		bad, p = nil, 0
		switch c.R.Intn(3) {
		case 0:
			p = pick(c.R, 0.02, 0.1, 0.3, 0.7)
		case 1:
			bad = map[string]bool{}
			f := pick(c.R, 0.01, 0.05, 0.2)
			for _, k := range m.order {
				if c.R.Chance(f) {
					bad[k] = true
				}
			}
		}
	}
	newPlan()
	ctx, cancelAll := context.WithCancel(bg)
	defer cancelAll()
	dr, err := uio.NewDagReader(ctx, root, m)
	c.Must(err, "open")
	pos := int64(0)
	failed := 0
	closed := false
	var key []byte
	rest := func(n int) []byte {
		if pos >= size {
			return nil
		}
		w := d[pos:]
		if len(w) > n {
			w = w[:n]
		}
		return w
	}
	// Calls fail for a reason: a fault, or their own context.
	own := bg
	caused := func(what string, err error) {
		if err == nil || err == io.EOF || closed || own.Err() != nil {
			return
		}
		_, _, faults := m.stat()
		c.Check(faults > 0, "uncaused", "%s at %d failed, but no fetch has and its context is alive: %v", what, pos, err)
	}
	// judge one read-like result
	judge := func(what string, n int, b []byte, got int, err error) {
		want := rest(n)
		c.Check(got <= len(want), "read-long", "%s at %d/%d delivered %d bytes, only %d exist (err %v)", what, pos, size, got, len(want), err)
		c.Check(bytes.Equal(b[:got], want[:got]), "read-wrong", "%s at %d delivered wrong bytes: %s (err %v)", what, pos, diffBytes(b[:got], want[:got]), err)
		if err == nil {
			c.Check(got == n || n == 0, "read-short", "%s at %d/%d delivered %d of %d bytes without error", what, pos, size, got, n)
		}
		if err == io.EOF {
			c.Check(pos+int64(got) >= size, "false-eof", "%s at %d/%d reported EOF after %d bytes", what, pos, size, got)
		}
		caused(what, err)
		pos += int64(got)
		if err != nil && err != io.EOF {
			failed++
			c.Count("failed_calls", 1)
		}
	}
	tell := func() {
		got, err := dr.Seek(0, io.SeekCurrent)
		c.Must(err, "tell")
		c.Check(got == pos, "tell", "cursor reported at %d, expected %d", got, pos)
	}
	step := func() {
		k := c.R.Intn(8)
		key = append(key, byte(k))
		switch {
		case k < 3:
			n := c.R.Intn(300)
			b := make([]byte, n)
			c.Logf("Read(%d) at %d", n, pos)
			got, err := dr.Read(b)
			judge("Read", n, b, got, err)
		case k == 3: // read with a context cancelled part way
			n := c.R.Intn(600)
			b := make([]byte, n)
			cx, cancel := context.WithCancel(bg)
			m.mu.Lock()
			cancelAt, cancelFn = c.R.Intn(6), cancel
			if cancelAt == 0 {
				cancel()
				cancelFn = nil
			}
			m.mu.Unlock()
			c.Logf("CtxReadFull(%d) at %d with cancellation", n, pos)
			got, err := dr.CtxReadFull(cx, b)
			own = cx
			judge("CtxReadFull", n, b, got, err)
			own = bg
			m.mu.Lock()
			cancelFn = nil
			m.mu.Unlock()
			cancel()
			c.Count("cancelled_calls", 1)
		case k == 4:
			n := c.R.Intn(300)
			b := make([]byte, n)
			c.Logf("CtxReadFull(%d) at %d", n, pos)
			got, err := dr.CtxReadFull(bg, b)
			judge("CtxReadFull", n, b, got, err)
		case k == 5:
			var buf bytes.Buffer
			c.Logf("WriteTo at %d", pos)
			n, err := dr.WriteTo(&buf)
			c.Check(n == int64(buf.Len()), "writeto-n", "WriteTo returned %d, wrote %d", n, buf.Len())
			want := rest(int(size))
			c.Check(int(n) <= len(want) && bytes.Equal(buf.Bytes(), want[:n]), "writeto-wrong", "WriteTo at %d wrote wrong bytes (err %v)", pos, err)
			if err == nil {
				c.Check(int(n) == len(want), "writeto-short", "WriteTo at %d/%d wrote %d bytes and reported success", pos, size, n)
			} else {
				caused("WriteTo", err)
				failed++
				c.Count("failed_calls", 1)
			}
			pos += n
		default:
			t := int64(c.R.Intn(int(size) + 3))
			wh, off := io.SeekStart, t
			if c.R.Chance(0.3) {
				wh, off = io.SeekEnd, t-size
			} else if c.R.Chance(0.3) {
				wh, off = io.SeekCurrent, t-pos
			}
			c.Logf("Seek(%d,%d) at %d", off, wh, pos)
			got, err := dr.Seek(off, wh)
			if err == nil {
				c.Check(got == t, "seek-pos", "seek to %d returned %d", t, got)
				pos = t
			} else {
				caused("Seek", err)
				failed++
				c.Count("failed_calls", 1)
				c.Count("failed_seeks", 1)
				// The cursor may stay or rewind, but what is reported must be
				// what is read from then on.
				p2, err2 := dr.Seek(0, io.SeekCurrent)
				c.Must(err2, "tell")
				c.Logf("seek failed (%v); cursor now reported at %d", err, p2)
				c.Check(p2 >= 0, "tell-range", "cursor at %d", p2)
				pos = p2
				if c.R.Chance(0.4) {
					z, err := dr.Seek(0, io.SeekStart)
					if err == nil {
						c.Check(z == 0, "seek0", "Seek(0) returned %d", z)
						pos = 0
					}
				}
			}
		}
		if c.R.Chance(0.3) {
			tell()
		}
		if c.R.Chance(0.2) {
			newPlan()
		}
	}
	for op := c.R.Range(5, 40); op > 0; op-- {
		step()
		if !closed && c.R.Chance(0.01) {
			c.Must(dr.Close(), "close")
			closed = true
			c.Count("closed_readers", 1)
			c.Logf("Close")
		}
	}
	// heal and read on
	m.mu.Lock()
	faulty = false
	m.mu.Unlock()
	c.Logf("store healed")
	if closed {
		// only contexts supplied by the caller can fetch now
		for i := 0; i < 40; i++ {
			b := make([]byte, 100)
			got, err := dr.Read(b)
			judge("Read after Close", 100, b, got, err)
		}
	}
	if c.R.Chance(0.5) && !closed {
		t := int64(c.R.Intn(int(size) + 1))
		for i := 0; ; i++ {
			got, err := dr.Seek(t, io.SeekStart)
			if err == nil {
				c.Check(got == t, "seek-pos", "seek to %d returned %d", t, got)
				pos = t
				break
			}
			c.Check(i < 40, "no-recovery", "Seek(%d) keeps failing on a healthy store: %v", t, err)
		}
	}
	stuck := 0
	for {
		how := 0
		if !closed {
			how = c.R.Intn(3)
		}
		b := make([]byte, c.R.Range(1, 500))
		var got int
		var err error
		before := pos
		switch how {
		case 0:
			got, err = dr.CtxReadFull(bg, b)
			judge("CtxReadFull (healed)", len(b), b, got, err)
		case 1:
			got, err = dr.Read(b)
			judge("Read (healed)", len(b), b, got, err)
		default:
			if c.R.Chance(0.5) {
				continue // leave some room for reads
			}
			var buf bytes.Buffer
			var n int64
			n, err = dr.WriteTo(&buf)
			want := rest(int(size))
			c.Check(int(n) == buf.Len() && int(n) <= len(want) && bytes.Equal(buf.Bytes(), want[:n]), "writeto-wrong", "WriteTo (healed) at %d returned %d, wrote wrong bytes (err %v)", pos, n, err)
			c.Check(err != nil || int(n) == len(want), "writeto-short", "WriteTo (healed) at %d/%d wrote %d bytes and reported success", pos, size, n)
			caused("WriteTo (healed)", err)
			pos += n
			if err == nil {
				err = io.EOF
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil && pos == before {
			stuck++
			c.Check(stuck < 40, "no-recovery", "reads at %d keep failing on a healthy store: %v", pos, err)
		} else {
			stuck = 0
		}
	}
	if failed > 0 {
		c.Count("recoveries", 1)
		c.Eval(nd.Cid().String() + string(key) + fmt.Sprint(failed))
	} else {
		c.Eval("")
	}
	_, _, faults := m.stat()
	c.Count("faults_injected", faults)
	c.Sample(fmt.Sprintf("%d bytes, %s, %d failed calls: %v", len(d), desc, failed, head(fmt.Sprint(c.trace), 300)))
}

// genNotFile returns a node that is no file, and the error a reader must
// refuse it with (nil: any).
func genNotFile(c *Case, m *memDAG) (ipld.Node, error, string) {
	b := pick(c.R, builders...)
	pn := func(data []byte, err error) *mdag.ProtoNode {
		c.Must(err, "data")
		n := mdag.NodeWithData(data)
		n.SetCidBuilder(b.b)
		return n
	}
	addLinks := func(n *mdag.ProtoNode) *mdag.ProtoNode {
		for i := c.R.Intn(3); i > 0; i-- {
			leaf := mdag.NewRawNode(c.R.Bytes(c.R.Intn(10)))
			m.put(leaf.Cid(), leaf.RawData())
			c.Must(n.AddNodeLink(pick(c.R, "", "a", "00b"), leaf), "link")
		}
		return n
	}
	meta := func(child ipld.Node) *mdag.ProtoNode {
		d, err := ft.BytesForMetadata(&ft.Metadata{MimeType: pick(c.R, "", "text/plain"), Size: uint64(c.R.Intn(5))})
		w := pn(d, err)
		if child != nil {
			m.put(child.Cid(), child.RawData())
			c.Must(w.AddNodeLink("", child), "link")
		}
		return w
	}
	switch c.R.Intn(9) {
	case 0:
		return addLinks(pn(ft.FolderPBData(), nil)), uio.ErrIsDir, "directory"
	case 1:
		d, err := ft.HAMTShardData(nil, 8<<uint(c.R.Intn(6)), 0x22)
		return addLinks(pn(d, err)), uio.ErrIsDir, "shard"
	case 2:
		d, err := ft.SymlinkData(string(c.R.Bytes(c.R.Intn(10))))
		return addLinks(pn(d, err)), uio.ErrCantReadSymlinks, "symlink"
	case 3:
		return meta(nil), nil, "metadata without a child"
	case 4:
		n, _, what := genNotFile(c, m)
		return meta(n), nil, what + " in metadata"
	case 5:
		var links []cid.Cid
		for i := c.R.Intn(3); i > 0; i-- {
			leaf := mdag.NewRawNode(c.R.Bytes(c.R.Intn(10)))
			m.put(leaf.Cid(), leaf.RawData())
			links = append(links, leaf.Cid())
		}
		return newForeign(c.R.Bytes(c.R.Intn(20)), links...), uio.ErrUnkownNodeType, "other node type"
	case 6: // type number nobody knows
		u := &uMsg{Type: uint64(c.R.Range(6, 40)), Data: c.R.Bytes(c.R.Intn(10))}
		return addLinks(pn(u.encode(), nil)), nil, "unknown type"
	case 7: // no data at all
		return addLinks(pn(nil, nil)), nil, "no unixfs data"
	default:
		// a length running past the end: no protobuf message
		d := append(ft.FilePBData(c.R.Bytes(5), 5), 0x12, byte(c.R.Range(1, 127)))
		return addLinks(pn(d, nil)), nil, "undecodable"
	}
}

// runC04Refuse: opening a reader on something that is no file is refused.
func runC04Refuse(c *Case) {
	m := newMemDAG()
	nd, want, what := genNotFile(c, m)
	m.put(nd.Cid(), nd.RawData())
	c.Logf("open a reader on: %s", what)
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Check(err != nil, "opened", "a reader was opened on: %s", what)
	c.Check(dr == nil, "opened", "a reader was returned with an error on: %s", what)
	c.Check(want == nil || errors.Is(err, want), "open-error", "opening a reader on %s fails with %q, want %q", what, err, want)
	c.Count("refused_opens", 1)
	c.Eval("refuse|" + what + "|" + nd.Cid().String())
}

// fileSpan is a block of a file and the range of the file it covers.
type fileSpan struct {
	hash       string
	start, end int64
	leaf       bool
}

// fileSpans lists the blocks below c with the ranges they cover.
func (m *memDAG) fileSpans(c cid.Cid, pos int64, out *[]fileSpan) (int64, error) {
	nd, err := m.get(c)
	if err != nil {
		return 0, err
	}
	i := len(*out)
	*out = append(*out, fileSpan{hash: string(c.Hash()), start: pos, leaf: len(nd.Links()) == 0})
	if (*out)[i].leaf {
		d, err := ft.ReadUnixFSNodeData(nd)
		if err != nil {
			return 0, err
		}
		pos += int64(len(d))
	}
	for _, l := range nd.Links() {
		if pos, err = m.fileSpans(l.Cid, pos, out); err != nil {
			return 0, err
		}
	}
	(*out)[i].end = pos
	return pos, nil
}

// runC05Malformed: a block of the file is no file block, or an inner node
// cannot guide a seek. Everything else must still read exactly.
func runC05Malformed(c *Case) {
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	var nd ipld.Node
	var d []byte
	var desc string
	for nd == nil || len(nd.Links()) == 0 || len(d) == 0 {
		nd, d, desc = genFile(c, m, 3000)
	}
	size := int64(len(d))
	var spans []fileSpan
	_, err := m.fileSpans(nd.Cid(), 0, &spans)
	c.Must(err, "spans")
	wantLeaf := c.R.Chance(0.6)
	var cand []fileSpan
	for _, s := range spans {
		if s.leaf == wantLeaf && s.start < s.end {
			cand = append(cand, s)
		}
	}
	if len(cand) == 0 {
		c.Fail("harness", "no victim")
	}
	v := pick(c.R, cand...)
	if c.R.Chance(0.2) {
		v = cand[0]
	}
	var repl ipld.Node
	var what string
	if wantLeaf {
		for { // without links: those would be walked into
			repl, _, what = genNotFile(c, m)
			if len(repl.Links()) == 0 && what != "metadata without a child" {
				break
			}
		}
	} else {
		var x ipld.Node
		if string(nd.Cid().Hash()) == v.hash {
			x = nd
		} else {
			for _, k := range m.order {
				if k == v.hash {
					x, err = m.get(cid.NewCidV1(cid.DagProtobuf, []byte(k)))
					c.Must(err, "victim")
				}
			}
		}
		pn := x.(*mdag.ProtoNode).Copy().(*mdag.ProtoNode)
		u, err := parseUMsg(pn.Data())
		c.Must(err, "parse")
		switch c.R.Intn(3) {
		case 0:
			what = "a child size missing"
			i := c.R.Intn(len(u.Blocksizes))
			u.Blocksizes = append(append([]uint64{}, u.Blocksizes[:i]...), u.Blocksizes[i+1:]...)
			pn.SetData(u.encode())
		case 1:
			what = "a child size too many"
			u.Blocksizes = append(u.Blocksizes, uint64(c.R.Intn(100)))
			pn.SetData(u.encode())
		default:
			what = "undecodable"
			pn.SetData(append(u.encode(), 0x12, byte(c.R.Range(1, 127))))
		}
		repl = pn
	}
	m.put(repl.Cid(), repl.RawData())
	root, err := m.rewire(nd.Cid(), v.hash, repl.Cid())
	c.Must(err, "rewire")
	rootNd, err := m.Get(bg, root)
	c.Must(err, "root")
	var holes, blind []fileSpan
	for _, s := range spans {
		if s.hash == v.hash && s.start < s.end {
			if wantLeaf {
				holes = append(holes, s)
			} else {
				blind = append(blind, s)
			}
		} else if s.hash == v.hash {
			c.Fail("harness", "empty victim")
		}
	}
	c.Logf("file of %d bytes: %s; %s at [%d,%d) (%d times), leaf=%v", size, desc, what, v.start, v.end, len(holes)+len(blind), wantLeaf)
	dr, err := uio.NewDagReader(bg, rootNd, m)
	if !wantLeaf && string(nd.Cid().Hash()) == v.hash && what == "undecodable" {
		c.Check(err != nil, "opened", "a reader was opened on an undecodable root")
		c.Count("malformed_blocks", 1)
		c.Eval("malformed|" + root.String())
		return
	}
	c.Must(err, "open")
	pos := int64(0)
	// avail returns the bytes that can be read at the cursor and whether a
	// hole follows them.
	avail := func() ([]byte, bool) {
		if pos >= size {
			return nil, false
		}
		end, hole := size, false
		for _, h := range holes {
			if pos < h.end && h.start < end {
				end, hole = h.start, true
			}
		}
		if end < pos {
			end = pos
		}
		return d[pos:end], hole
	}
	failed := 0
	var key []byte
	for op := c.R.Range(3, 25); op > 0; op-- {
		k := c.R.Intn(8)
		key = append(key, byte(k))
		want, hole := avail()
		switch {
		case k < 4:
			n := c.R.Range(1, 300)
			b := make([]byte, n)
			var got int
			var err error
			if k < 2 {
				got, err = dr.Read(b)
			} else {
				got, err = dr.CtxReadFull(bg, b)
			}
			c.Logf("read of %d at %d: %d, %v", n, pos, got, err)
			if len(want) >= n {
				want, hole = want[:n], false
			}
			c.Check(got <= len(want) && bytes.Equal(b[:got], want[:got]), "malformed-wrong", "read of %d at %d/%d delivered %d wrong bytes (err %v)", n, pos, size, got, err)
			c.Check(got == len(want), "malformed-short", "read of %d at %d/%d delivered %d of the %d bytes before the malformed block (err %v)", n, pos, size, got, len(want), err)
			pos += int64(got)
			if hole {
				c.Check(err != nil && err != io.EOF, "malformed-noerr", "read of %d reaching a malformed block at %d/%d returned %d bytes and %v", n, pos, size, got, err)
				failed++
			} else if got < n {
				c.Check(err == io.EOF, "malformed-eof", "read at the end returned %v", err)
			} else {
				c.Check(err == nil || err == io.EOF && pos >= size, "malformed-err", "full read of %d at %d/%d returned %v", n, pos, size, err)
			}
		case k == 4:
			var buf bytes.Buffer
			n, err := dr.WriteTo(&buf)
			c.Logf("WriteTo at %d: %d, %v", pos, n, err)
			c.Check(int(n) == buf.Len() && bytes.Equal(buf.Bytes(), want), "malformed-writeto", "WriteTo at %d/%d returned %d, wrote %s (err %v)", pos, size, n, diffBytes(buf.Bytes(), want), err)
			c.Check((err != nil) == hole, "malformed-writeto-err", "WriteTo at %d/%d returned %v (malformed block ahead: %v)", pos, size, err, hole)
			pos += n
			if hole {
				failed++
			}
		default:
			t := int64(c.R.Intn(int(size)))
			if c.R.Chance(0.4) {
				s := pick(c.R, append(holes, blind...)...)
				t = s.start + int64(c.R.Intn(int(s.end-s.start)))
			}
			bad, inBlind := false, false
			for _, s := range append(holes, blind...) {
				if t >= s.start && t < s.end {
					bad = true
					inBlind = !wantLeaf
				}
			}
			wh, off := io.SeekStart, t
			if c.R.Chance(0.3) {
				wh, off = io.SeekEnd, t-size
			} else if c.R.Chance(0.3) {
				wh, off = io.SeekCurrent, t-pos
			}
			got, err := dr.Seek(off, wh)
			c.Logf("Seek(%d,%d) at %d: %d, %v", off, wh, pos, got, err)
			if err == nil {
				c.Check(got == t, "seek-pos", "seek to %d returned %d", t, got)
				pos = t
				if inBlind {
					c.Count("seeks_through_bad_sizes_ok", 1)
				}
			} else {
				c.Check(bad, "malformed-seek", "seek to %d/%d, away from the malformed block, failed: %v", t, size, err)
				failed++
				p2, err := dr.Seek(0, io.SeekCurrent)
				c.Must(err, "tell")
				c.Check(p2 >= 0 && p2 <= size, "tell-range", "cursor at %d", p2)
				pos = p2
			}
		}
		if c.R.Chance(0.3) {
			p2, err := dr.Seek(0, io.SeekCurrent)
			c.Must(err, "tell")
			c.Check(p2 == pos, "tell", "cursor reported at %d, expected %d", p2, pos)
		}
	}
	c.Count("malformed_blocks", 1)
	if failed > 0 {
		c.Count("malformed_failed_calls", failed)
		c.Eval("malformed|" + root.String() + string(key))
	} else {
		c.Eval("")
	}
}

// runC05Blocked: a fetch hangs until its context ends; cancelling the call's
// context, or closing the reader, must release the call with an error.
func runC05Blocked(c *Case) {
	m := newMemDAG()
	s := genImp(c.R)
	s.maxlinks = pick(c.R, 2, 3, 5, 174)
	s.ch = chunkSpec{size: 16}
	d := genUnique(c.R, c.R.Range(17, 16*200))
	nd, err := s.importBytes(m, d)
	c.Must(err, "import")
	a, err := m.audit(nd.Cid())
	c.Must(err, "audit")
	victim := a.cids[1+c.R.Intn(len(a.cids)-1)]
	b := &blockingDAG{memDAG: m, victim: victim, hit: make(chan struct{})}
	userCtx := c.R.Chance(0.5)
	parent, cancelParent := context.WithCancel(bg)
	defer cancelParent()
	dr, err := uio.NewDagReader(parent, nd, b)
	c.Must(err, "open")
	cx, cancel := context.WithCancel(bg)
	defer cancel()
	start := 0
	if c.R.Chance(0.5) {
		// the victim may be hit by the seek itself: keep the seek free of it
		start = 0
	}
	type res struct {
		n   int
		err error
		b   []byte
	}
	done := make(chan res, 1)
	how := c.R.Intn(2)
	go func() {
		buf := make([]byte, len(d)+10)
		var r res
		if userCtx {
			r.n, r.err = dr.CtxReadFull(cx, buf)
		} else if how == 0 {
			r.n, r.err = dr.Read(buf)
		} else {
			var w bytes.Buffer
			var n int64
			n, r.err = dr.WriteTo(&w)
			r.n = int(n)
			buf = append(w.Bytes(), make([]byte, 1)...)
		}
		r.b = buf
		done <- r
	}()
	<-b.hit
	c.Logf("fetch of %s blocks; release by user context=%v", victim, userCtx)
	if userCtx {
		cancel()
	} else if c.R.Chance(0.5) {
		c.Must(dr.Close(), "close")
		c.Count("closed_readers", 1)
	} else {
		cancelParent()
	}
	r := <-done // the deadlock monitor fires if the call stays blocked
	c.Check(r.err != nil && r.err != io.EOF, "blocked-noerr", "call on a blocked fetch returned %d bytes and %v after cancellation", r.n, r.err)
	c.Check(r.n <= len(d) && bytes.Equal(r.b[:r.n], d[start:start+r.n]), "blocked-wrong", "wrong bytes before the blocked fetch")
	c.Count("blocked_then_cancelled", 1)
	c.Count("failed_calls", 1)
	if userCtx { // the reader itself is still usable
		b.release()
		rest := make([]byte, len(d))
		n, i := r.n, 0
		for {
			k, err := dr.CtxReadFull(bg, rest)
			c.Check(n+k <= len(d) && bytes.Equal(rest[:k], d[n:n+k]), "resume-wrong", "wrong bytes when resuming at %d", n)
			n += k
			if err == io.EOF {
				break
			}
			i++
			c.Check(i < 400, "no-recovery", "reader does not resume after a cancelled call: %v", err)
		}
		c.Check(n == len(d), "false-eof", "EOF at %d of %d when resuming", n, len(d))
		c.Count("recoveries", 1)
	}
	c.Eval(fmt.Sprintf("blocked|%s|%s|%v|%d", nd.Cid(), victim, userCtx, how))
}

// blockingDAG never answers for one block until its context ends.
type blockingDAG struct {
	*memDAG
	victim cid.Cid
	hit    chan struct{}
	once   sync.Once
	mu2    sync.Mutex
	free   bool
}

func (b *blockingDAG) release() { b.mu2.Lock(); b.free = true; b.mu2.Unlock() }

func (b *blockingDAG) isVictim(c cid.Cid) bool {
	b.mu2.Lock()
	defer b.mu2.Unlock()
	return !b.free && c.Equals(b.victim)
}

func (b *blockingDAG) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if b.isVictim(c) {
		b.once.Do(func() { close(b.hit) })
		<-ctx.Done()
		return nil, ctx.Err()
	}
	return b.memDAG.Get(ctx, c)
}

func (b *blockingDAG) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	block := false
	var keep []cid.Cid
	for _, c := range cs {
		if b.isVictim(c) {
			block = true
		} else {
			keep = append(keep, c)
		}
	}
	if !block {
		return b.memDAG.GetMany(ctx, cs)
	}
	in := b.memDAG.GetMany(ctx, keep)
	out := make(chan *ipld.NodeOption, len(cs)+2)
	go func() {
		defer close(out)
		for o := range in {
			out <- o
		}
		b.once.Do(func() { close(b.hit) })
		<-ctx.Done()
		out <- &ipld.NodeOption{Err: ctx.Err()}
	}()
	return out
}
