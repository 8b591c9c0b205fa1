package main

import (
	"bytes"
	"context"
	"fmt"
	"io"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdagmock "github.com/ipfs/go-merkledag/test"
	"github.com/ipfs/go-unixfs/importer"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
)

var bg = context.Background()

// readAllVaried reads a reader to EOF with varying buffer sizes and methods,
// checking the io.Reader contract on the way.
func readAllVaried(c *Case, dr uio.DagReader, want []byte) []byte {
	var out []byte
	mode := c.R.Intn(4)
	if mode == 0 {
		var buf bytes.Buffer
		n, err := dr.WriteTo(&buf)
		c.Must(err, "writeto")
		c.Check(n == int64(buf.Len()), "writeto-count", "WriteTo reported %d bytes, wrote %d", n, buf.Len())
		out = buf.Bytes()
	} else {
		zero := 0
		for {
			sz := c.R.Range(1, 300)
			if mode == 1 {
				sz = len(want) + c.R.Intn(3)
				if sz == 0 {
					sz = 1
				}
			}
			b := make([]byte, sz)
			var n int
			var err error
			if c.R.Chance(0.5) {
				n, err = dr.Read(b)
			} else {
				n, err = dr.CtxReadFull(bg, b)
			}
			c.Check(n >= 0 && n <= sz, "read-count", "read of %d bytes returned n=%d", sz, n)
			out = append(out, b[:n]...)
			if err == io.EOF {
				break
			}
			c.Must(err, "read")
			if n == 0 {
				zero++
				c.Check(zero < 100, "read-progress", "100 consecutive empty reads without EOF")
			}
			c.Check(len(out) <= len(want), "read-long", "read %d bytes of a %d byte file without EOF", len(out), len(want))
		}
	}
	// EOF is sticky
	n, err := dr.Read(make([]byte, 10))
	c.Check(n == 0 && err == io.EOF, "read-eof", "read after the end returned %d, %v", n, err)
	return out
}

func genImportCase(c *Case, maxChunks int) (impSpec, []byte) {
	s := genImp(c.R)
	if c.R.Chance(0.07) {
		s.b = inline
		c.Count("inlining_builder_cases", 1)
	}
	if c.Thor && c.R.Chance(0.1) {
		maxChunks *= 8
	}
	n := s.genLen(c.R, maxChunks)
	if maxChunks >= 400 && c.R.Chance(0.004) { // three levels at a realistic fanout
		s.maxlinks = pick(c.R, 13, 30, 30, 30, 174)
		s.ch = chunkSpec{size: pick(c.R, 1, 2, 5)}
		k := s.maxlinks*s.maxlinks + c.R.Range(-1, 2)
		if c.R.Chance(0.4) {
			k += c.R.Intn(k)
		}
		if s.b.name == "v1-identity" {
			s.b = builders[2]
		}
		n = k * s.ch.size
		c.Count("deep_wide_cases", 1)
	}
	if k, ok := s.realChunks(c.R, 0.005); ok {
		n = k
		c.Count("real_chunk_sizes", 1)
	}
	if n > 4<<20 {
		n = 4 << 20
	}
	if s.b.name == "v1-identity" && n > 20000 { // each level repeats everything below
		n = c.R.Intn(20000)
	}
	d := genData(c.R, n)
	c.Logf("import %s of %d bytes", s, n)
	return s, d
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 20000, Thorough: 288000,
		Rule:        "a case imports one generated stream (lengths biased to chunk, fanout-power and trickle-layer boundaries) under one generated configuration and reads it back; non-trivial = non-empty stream with a distinct (layout, links, leaf, cid, chunking, length) tuple",
		Assumptions: []string{"maxlinks >= 2; splitters return non-empty chunks until EOF"},
		Required:    []string{"multi_level_dags", "single_leaf_files", "empty_files"},
		Run:         runC01,
	})
	register(&Prop{
		ID: "C02", Quick: 20000, Thorough: 300000,
		Rule:        "a case imports (and in a third of cases trickle-appends) a generated stream and audits every stored node with an independent parser; non-trivial = DAG with at least one inner node, keyed by root CID",
		Assumptions: []string{"maxlinks >= 2"},
		Required:    []string{"inner_nodes_audited", "appended_dags", "long_imports"},
		Run:         runC02,
	})
	register(&Prop{
		ID: "C03", Quick: 12000, Thorough: 179999,
		Rule:        "a case imports a generated stream twice and compares root CID and stored blocks with an independent implementation of both layouts; non-trivial = DAG with at least one inner node, keyed by root CID",
		Assumptions: []string{"maxlinks >= 2", "reference layouts in /verif/harness/ref.go"},
		Required:    []string{"cid_matches"},
		Run:         runC03,
	})
	register(&Prop{
		ID: "C21", Level: "fault_enumeration", Quick: 12500, Thorough: 180000,
		Rule:        "a case imports or appends one stream once cleanly, then once per enumerated fault position (source read error, splitter error, oversize chunk, each store Add); non-trivial = a fault that actually fired, keyed by configuration and position",
		Assumptions: []string{"a failing source keeps failing; maxlinks >= 2"},
		Required:    []string{"reader_faults", "add_faults", "oversize_chunks", "append_faults"},
		Run:         runC21,
	})
}

func runC01(c *Case) {
	s, d := genImportCase(c, 600)
	var ds ipld.DAGService
	var m *memDAG
	if c.R.Chance(0.2) {
		ds = mdagmock.Mock()
		c.Count("real_dagservice_cases", 1)
	} else {
		m = newMemDAG()
		m.shuffle = newRng(c.Seed + 1)
		ds = m
	}
	nd, err := s.importReader(ds, c.srcReader(d))
	c.Must(err, "import")
	// reload from the store
	stored, err := ds.Get(bg, nd.Cid())
	c.Must(err, "root-stored")
	dr, err := uio.NewDagReader(bg, stored, ds)
	c.Must(err, "reader")
	c.Check(dr.Size() == uint64(len(d)), "size", "reader size %d, stream length %d (%s)", dr.Size(), len(d), s)
	got := readAllVaried(c, dr, d)
	c.Check(bytes.Equal(got, d), "content", "read back %s (%s)", diffBytes(got, d), s)
	if c.R.Chance(0.3) { // the returned node itself
		dr, err := uio.NewDagReader(bg, nd, ds)
		c.Must(err, "reader2")
		got, err := io.ReadAll(dr)
		c.Must(err, "readall")
		c.Check(bytes.Equal(got, d), "content2", "read back from the returned node: %s (%s)", diffBytes(got, d), s)
	}
	key := ""
	if len(d) > 0 {
		key = fmt.Sprintf("%s %d", s, len(d))
	}
	c.Eval(key)
	c.Count("bytes_compared", len(d))
	switch {
	case len(d) == 0:
		c.Count("empty_files", 1)
	case len(nd.Links()) == 0:
		c.Count("single_leaf_files", 1)
	default:
		c.Count("multi_level_dags", 1)
	}
	c.Sample(fmt.Sprintf("%s, %d bytes", s, len(d)))
}

// srcReader wraps data in a reader that returns short reads in some cases.
func (c *Case) srcReader(d []byte) io.Reader {
	switch c.R.Intn(3) {
	case 0:
		return &shortReader{d: d, r: newRng(c.Seed + 7)}
	default:
		return bytes.NewReader(d)
	}
}

type shortReader struct {
	d    []byte
	r    *Rng
	err  error // returned instead of EOF once d is consumed
	with bool  // return the error together with the last bytes
}

func (s *shortReader) Read(b []byte) (int, error) {
	e := s.err
	if e == nil {
		e = io.EOF
	}
	if len(s.d) == 0 {
		return 0, e
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := s.r.Range(1, 9)
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], s.d)
	s.d = s.d[n:]
	if len(s.d) == 0 && s.with {
		return n, e
	}
	return n, nil
}

func runC02(c *Case) {
	if c.Index == 5 {
		runLongImport(c, false)
		return
	}
	s, d := genImportCase(c, 400)
	m := newMemDAG()
	nd, err := s.importBytes(m, d)
	c.Must(err, "import")
	want := d
	if s.trickle && s.b.name != inline.name && c.R.Chance(0.6) {
		for k := c.R.Range(1, 3); k > 0; k-- {
			n := s.genLen(c.R, 60)
			x := genData(c.R, n)
			c.Logf("append %d bytes", n)
			p := s.params(m)
			db, err := p.New(s.ch.splitter(bytes.NewReader(x)))
			c.Must(err, "newhelper")
			nd, err = trickle.Append(bg, nd, db)
			c.Must(err, "append")
			c.Must(m.Add(bg, nd), "add")
			want = append(append([]byte(nil), want...), x...)
		}
		c.Count("appended_dags", 1)
	}
	c.auditNode(m, nd, want, s)
	c.Sample(fmt.Sprintf("%s, %d bytes, root %s", s, len(want), nd.Cid()))
}

// auditNode checks completeness, sizes, link sizes, CID builder and content
// of a produced file.
func (c *Case) auditNode(m *memDAG, nd ipld.Node, want []byte, s impSpec) {
	m.checkIntegrity(c)
	a, err := m.audit(nd.Cid())
	if err != nil {
		c.Fail("audit", "%s: %v", s, err)
	}
	c.Check(bytes.Equal(a.content, want), "audit-content", "%s: stored content: %s", s, diffBytes(a.content, want))
	for _, id := range a.cids {
		raw, _ := m.block(id)
		exp := s.b.pb(raw)
		if id.Prefix().Codec != exp.Prefix().Codec {
			exp = s.b.raw(raw)
		}
		c.Check(id.Equals(exp), "cid-prefix", "%s: node %s does not use the requested CID builder (expected %s)", s, id, exp)
	}
	sz, err := nd.Size()
	c.Must(err, "size")
	var ts uint64
	var sum func(id ipld.Node)
	_ = sum
	rootRaw, _ := m.block(nd.Cid())
	ts = uint64(len(rootRaw))
	if nd.Cid().Prefix().Codec != 0x55 {
		links, _, err := parseDagPB(rootRaw)
		c.Must(err, "parse-root")
		for _, l := range links {
			ts += l.Tsize
		}
	}
	c.Check(sz == ts, "root-size", "root reports cumulative size %d, stored form has %d", sz, ts)
	c.Check(bytes.Equal(nd.RawData(), rootRaw), "root-bytes", "returned root differs from the stored block")
	key := ""
	if a.nodes > a.leaves {
		key = nd.Cid().String()
	}
	c.Eval(key)
	c.Count("inner_nodes_audited", a.nodes-a.leaves)
	c.Count("leaves_audited", a.leaves)
	c.Max("depth", a.depth)
}

func runC03(c *Case) {
	s, d := genImportCase(c, 500)
	viaHelper := c.R.Chance(0.1)
	if viaHelper { // the importer package's convenience functions
		s.maxlinks, s.raw, s.b = h.DefaultLinksPerBlock, false, bspec{}
		c.Check(h.DefaultLinksPerBlock == 174, "default-links", "DefaultLinksPerBlock is %d", h.DefaultLinksPerBlock)
	}
	store := map[string][]byte{}
	want, ri := s.ref(d, store)
	var first ipld.Node
	for rep := 0; rep < 2; rep++ {
		m := newMemDAG()
		var nd ipld.Node
		var err error
		if viaHelper {
			if s.trickle {
				nd, err = importer.BuildTrickleDagFromReader(m, s.ch.splitter(c.srcReader(d)))
			} else {
				nd, err = importer.BuildDagFromReader(m, s.ch.splitter(c.srcReader(d)))
			}
		} else {
			nd, err = s.importReader(m, c.srcReader(d))
		}
		c.Must(err, "import")
		c.Check(nd.Cid().Equals(want.c), "layout-cid", "%s, %d bytes: root %s, specified layout has %s", s, len(d), nd.Cid(), want.c)
		c.Check(bytes.Equal(nd.RawData(), want.raw), "layout-bytes", "%s: root bytes differ from the specified encoding", s)
		if first != nil {
			c.Check(first.Cid().Equals(nd.Cid()), "determinism", "second import gives another CID")
		}
		first = nd
		m.checkIntegrity(c)
		// every specified block is stored, bit exact
		for k, raw := range store {
			got, ok := m.blocks[k]
			c.Check(ok && bytes.Equal(got, raw), "layout-block", "%s: a specified block is missing from the store", s)
		}
		c.Count("blocks_compared", len(store))
		a, err := m.audit(nd.Cid())
		c.Must(err, "audit")
		for _, id := range a.cids {
			raw, _ := m.block(id)
			if id.Prefix().Codec == 0x55 {
				continue
			}
			links, _, _ := parseDagPB(raw)
			lim := s.maxlinks
			if s.trickle {
				lim += 4 * (ri.depth + 1)
			}
			c.Check(len(links) <= lim, "fanout", "%s: node with %d links", s, len(links))
		}
		if s.trickle {
			p := trickle.VerifyParams{Getter: m, Direct: s.maxlinks, LayerRepeat: 4, RawLeaves: s.raw}
			c.Must(trickle.VerifyTrickleDagStructure(nd, p), "verify")
		}
	}
	c.Count("cid_matches", 2)
	c.Max("layout_depth", ri.depth)
	key := ""
	if len(ri.chunks) > 1 {
		key = want.c.String()
	}
	c.Eval(key)
	c.State("shapes", fmt.Sprintf("%v/%d/%d", s.trickle, s.maxlinks, len(ri.chunks)))
	c.Sample(fmt.Sprintf("%s, %d bytes -> %s", s, len(d), want.c))
}

// C21 ------------------------------------------------------------------------

type errSplitter struct {
	chunker.Splitter
	left int
	err  error
}

func (e *errSplitter) NextBytes() ([]byte, error) {
	if e.left == 0 {
		return nil, e.err
	}
	e.left--
	return e.Splitter.NextBytes()
}

func runC21(c *Case) {
	s, d := genImportCase(c, 60)
	isAppend := s.b.name != inline.name && c.R.Chance(0.4)
	if isAppend {
		s.trickle = true
	}
	base := genData(c.R, s.genLen(c.R, 40))
	chunks := s.ch.split(d)
	// run performs the operation over a fresh store holding the base.
	limit := 0
	run := func(sp chunker.Splitter, fault func(Op) error) (nd ipld.Node, m *memDAG, err error) {
		m = newMemDAG()
		var bn ipld.Node
		if isAppend {
			bn, err = s.importBytes(m, base)
			c.Must(err, "base-import")
			m.resetLog()
		}
		m.setFault(fault)
		p := s.params(m)
		db, err := p.New(sp)
		c.Must(err, "newhelper")
		if limit > 0 {
			setBlockSizeLimit(limit)
		}
		if isAppend {
			nd, err = trickle.Append(bg, bn, db)
		} else {
			nd, err = s.layout(db)
		}
		m.setFault(nil)
		setBlockSizeLimit(defBlockSizeLimit)
		return
	}
	nd0, m0, err := run(s.ch.splitter(bytes.NewReader(d)), nil)
	c.Must(err, "clean-run")
	adds := m0.adds
	if !isAppend {
		// children before parents: a returned root is complete
		_, err := m0.audit(nd0.Cid())
		c.Must(err, "complete")
	}
	expectErr := func(nd ipld.Node, m *memDAG, err error, want error, what string) {
		if err == nil {
			c.Fail("swallowed", "%s, %s (append=%v): returned a root and no error", s, what, isAppend)
		}
		if want != nil {
			c.Check(err == want || errorsIs(err, want), "other-error", "%s, %s: error %v does not report %v", s, what, err, want)
		}
		c.Eval(fmt.Sprintf("%s|%d|%v|%s", s, len(d), isAppend, what))
	}
	src := fmt.Errorf("zverif: source failure %d", c.Index)
	// source reader fails after k bytes
	for i := 0; i < 6; i++ {
		k := c.R.Intn(len(d) + 1)
		if i == 0 {
			k = len(d)
		}
		if i == 1 {
			k = 0
		}
		with := c.R.Chance(0.5)
		what := fmt.Sprintf("source fails after %d of %d bytes (with data: %v)", k, len(d), with)
		c.Logf("%s", what)
		nd, m, err := run(s.ch.splitter(&shortReader{d: d[:k], r: newRng(uint64(i)), err: src, with: with}), nil)
		expectErr(nd, m, err, src, what)
		c.Count("reader_faults", 1)
	}
	// splitter fails at chunk k
	for i := 0; i < 4; i++ {
		k := c.R.Intn(len(chunks) + 1)
		what := fmt.Sprintf("splitter fails at chunk %d of %d", k, len(chunks))
		c.Logf("%s", what)
		serr := src
		if c.R.Chance(0.5) { // (a reader's own unexpected EOF is the splitter's to judge)
			serr = genStoreFault(c, c.R)
		}
		nd, m, err := run(&errSplitter{s.ch.splitter(bytes.NewReader(d)), k, serr}, nil)
		expectErr(nd, m, err, serr, what)
		c.Count("reader_faults", 1)
	}
	// one chunk over the block size limit
	if len(chunks) > 0 {
		max := 0
		for _, ch := range chunks {
			if len(ch) > max {
				max = len(ch)
			}
		}
		if max > 1 {
			limit = max - 1
			what := fmt.Sprintf("chunk of %d bytes over the limit", max)
			nd, m, err := run(s.ch.splitter(bytes.NewReader(d)), nil)
			expectErr(nd, m, err, h.ErrSizeLimitExceeded, what)
		}
		limit = max
		nd, _, err := run(s.ch.splitter(bytes.NewReader(d)), nil)
		limit = 0
		c.Must(err, "limit-exact")
		c.Check(nd.Cid().Equals(nd0.Cid()), "limit-cid", "chunk exactly at the limit changes the result")
		c.Count("oversize_chunks", 1)
	}
	// each Add fails in turn (all positions when few, a sample otherwise)
	pos := make([]int, 0, adds)
	for i := 0; i < adds; i++ {
		pos = append(pos, i)
	}
	if len(pos) > 12 {
		c.R.Shuffle(len(pos), func(i, j int) { pos[i], pos[j] = pos[j], pos[i] })
		pos = append(pos[:10], adds-1, 0)
	}
	for _, k := range pos {
		cnt := 0
		what := fmt.Sprintf("store refuses block %d of %d", k, adds)
		c.Logf("%s", what)
		ferr := genStoreFault(c, c.R)
		nd, m, err := run(s.ch.splitter(bytes.NewReader(d)), func(o Op) error {
			if o.Kind != "add" {
				return nil
			}
			cnt++
			if cnt-1 == k {
				return ferr
			}
			return nil
		})
		c.Check(m.faults > 0, "fault-not-hit", "%s: fault did not fire", what)
		expectErr(nd, m, err, ferr, what)
		c.Count("add_faults", 1)
	}
	if isAppend {
		// each fetch fails in turn
		for k := 0; k < m0.gets && k < 6; k++ {
			cnt := 0
			what := fmt.Sprintf("fetch %d of %d fails", k, m0.gets)
			ferr := genStoreFault(c, c.R)
			nd, m, err := run(s.ch.splitter(bytes.NewReader(d)), func(o Op) error {
				if o.Kind == "add" {
					return nil
				}
				cnt++
				if cnt-1 == k {
					return ferr
				}
				return nil
			})
			expectErr(nd, m, err, ferr, what)
			c.Count("append_faults", 1)
		}
	}
	c.Sample(fmt.Sprintf("%s, %d bytes, append=%v, %d adds", s, len(d), isAppend, adds))
}

func errorsIs(err, target error) bool {
	for e := err; e != nil; {
		if e == target {
			return true
		}
		u, ok := e.(interface{ Unwrap() error })
		if !ok {
			break
		}
		e = u.Unwrap()
	}
	return err != nil && target != nil && bytes.Contains([]byte(err.Error()), []byte(target.Error()))
}
