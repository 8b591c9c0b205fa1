package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
)

func init() {
	register(&Prop{
		ID: "C27", Level: "fault_enumeration", Quick: 4000, Thorough: 150000,
		Rule:        "a case runs one history (import, appends, modifier, directory or shard operations) to its end and then again with a crash after an enumerated number of store operations, watching every block as it is stored, and afterwards reads every version handed out before the crash from the surviving blocks and completes the history from there; non-trivial = a crash that cut the history short, keyed by history and position",
		Assumptions: []string{"the store keeps exactly the blocks whose Add returned; entries of directories are stored before they are added"},
		Required:    []string{"crashes", "imports", "appends", "modifiers", "directories", "shards", "versions_checked", "resumed", "blocks_watched"},
		Run:         runC27,
	})
}

var errCrash = errors.New("zverif: crashed")

// version is a root a history handed out, and what it has to hold.
type version struct {
	c       cid.Cid
	step    int
	file    []byte
	entries map[string]rEntry
	isDir   bool
}

// crashRun is one execution of a history. step runs step i and returns the
// version it hands out (nil: none).
type history interface {
	open(m *memDAG, from *version) error
	step(i int) (*version, error)
	steps() int
}

// importHist imports once.
type importHist struct {
	c    *Case
	s    impSpec
	data []byte
	m    *memDAG
}

func (x *importHist) open(m *memDAG, _ *version) error { x.m = m; return nil }
func (x *importHist) steps() int                       { return 1 }
func (x *importHist) step(int) (*version, error) {
	nd, err := x.s.importBytes(x.m, x.data)
	if err != nil {
		return nil, err
	}
	return &version{c: nd.Cid(), file: x.data}, nil
}

// appendHist appends pieces to a base.
type appendHist struct {
	s      impSpec
	pieces [][]byte
	m      *memDAG
	base   ipld.Node
	data   []byte
}

func (x *appendHist) steps() int { return len(x.pieces) }
func (x *appendHist) open(m *memDAG, from *version) (err error) {
	x.m, x.data = m, from.file
	x.base, err = m.get(from.c)
	return err
}
func (x *appendHist) step(i int) (*version, error) {
	nd, err := x.s.appendBytes(x.m, x.base, x.pieces[i])
	if err != nil {
		return nil, err
	}
	if err := x.m.Add(bg, nd); err != nil {
		return nil, err
	}
	x.base = nd
	x.data = append(append([]byte(nil), x.data...), x.pieces[i]...)
	return &version{c: nd.Cid(), file: x.data}, nil
}

// modHist is a list of modifier operations.
type modHist struct {
	ops  []modOp
	ch   chunkSpec
	raw  bool
	m    *memDAG
	dm   *mod.DagModifier
	d    modDrv // the model
	c    *Case
	seed uint64
}

func (x *modHist) steps() int { return len(x.ops) }
func (x *modHist) open(m *memDAG, from *version) error {
	nd, err := m.get(from.c)
	if err != nil {
		return err
	}
	dm, err := mod.NewDagModifier(bg, nd, m, x.ch.gen())
	if err != nil {
		return err
	}
	if x.raw {
		dm.RawLeaves = !dm.RawLeaves
	}
	x.m, x.dm = m, dm
	x.d = modDrv{c: x.c, m: m, dm: dm, model: from.file}
	return nil
}
func (x *modHist) step(i int) (*version, error) {
	o := x.ops[i]
	nm, nc, ok := x.d.after(o)
	r := x.d.exec(o)
	if !ok {
		return nil, nil
	}
	if r.buf != nil {
		nc = x.d.cur + r.n
		if r.err == io.EOF {
			r.err = nil
		}
	}
	if r.err != nil {
		return nil, r.err
	}
	x.d.model, x.d.cur = nm, nc
	if r.nd != nil {
		return &version{c: r.nd.Cid(), file: nm}, nil
	}
	return nil, nil
}

// dirHist is a list of directory (or shard) operations.
type dirOp struct {
	kind string // add, remove, node
	name string
	nd   ipld.Node
}

type dirHist struct {
	ops   []dirOp
	shard bool
	m     *memDAG
	dir   uio.Directory
	sh    *hamt.Shard
	model map[string]rEntry
}

func (x *dirHist) steps() int { return len(x.ops) }
func (x *dirHist) open(m *memDAG, from *version) error {
	nd, err := m.get(from.c)
	if err != nil {
		return err
	}
	x.m, x.model = m, cloneModel(from.entries)
	if x.shard {
		x.sh, err = hamt.NewHamtFromDag(m, nd)
	} else {
		x.dir, err = uio.NewDirectoryFromNode(m, nd)
	}
	return err
}
func (x *dirHist) step(i int) (*version, error) {
	o := x.ops[i]
	var err error
	switch {
	case o.kind == "node":
		var nd ipld.Node
		if x.shard {
			nd, err = x.sh.Node()
		} else if nd, err = x.dir.GetNode(); err == nil {
			err = x.m.Add(bg, nd) // a basic directory leaves this to its user
		}
		if err != nil {
			return nil, err
		}
		return &version{c: nd.Cid(), entries: cloneModel(x.model), isDir: true}, nil
	case o.kind == "add":
		if x.shard {
			err = x.sh.Set(bg, o.name, o.nd)
		} else {
			err = x.dir.AddChild(bg, o.name, o.nd)
		}
		if err == nil {
			x.model[o.name] = linkEntry(o.nd)
		}
	default:
		if _, ok := x.model[o.name]; !ok {
			return nil, nil
		}
		if x.shard {
			err = x.sh.Remove(bg, o.name)
		} else {
			err = x.dir.RemoveChild(bg, o.name)
		}
		if err == nil {
			delete(x.model, o.name)
		}
	}
	return nil, err
}

// checkVersion reads a version from the store in full.
func (v *version) check(c *Case, m *memDAG, when string) {
	nd, err := m.get(v.c)
	c.Check(err == nil, "version-lost", "%s: the root %s handed out by step %d is not in the store: %v", when, v.c, v.step, err)
	if v.isDir {
		d, err := uio.NewDirectoryFromNode(m, nd)
		c.Must(err, "version-dir")
		how, ls, err := listVia(bg, d, c.R.Intn(3))
		c.Check(err == nil, "version-incomplete", "%s: the directory handed out by step %d does not list: %v", when, v.step, err)
		compareListing(c, "version/"+how, ls, v.entries)
		for _, l := range ls {
			_, ok := m.block(l.Cid)
			c.Check(ok, "version-entry", "%s: entry %q of the directory handed out by step %d is not in the store", when, l.Name, v.step)
		}
	} else {
		dr, err := uio.NewDagReader(bg, nd, m)
		c.Must(err, "version-reader")
		got, err := io.ReadAll(dr)
		c.Check(err == nil && bytes.Equal(got, v.file), "version-incomplete", "%s: the file handed out by step %d reads %s (err %v)", when, v.step, diffBytes(got, v.file), err)
	}
	c.Count("versions_checked", 1)
}

func runC27(c *Case) {
	r := c.R
	base := newMemDAG()
	base.shuffle = newRng(c.Seed + 1)
	var hist history
	var start *version
	kind := ""
	switch r.Intn(5) {
	case 0:
		kind = "imports"
		s := genImp(r)
		hist = &importHist{c: c, s: s, data: genData(r, s.genLen(r, 120))}
		start = &version{}
		c.Logf("import %s", s)
	case 1:
		kind = "appends"
		s := genImp(r)
		s.trickle = true
		s.maxlinks = pick(r, 2, 2, 3, 4, 5, 8)
		nd, d, desc := startFile(c, base, s.b)
		if r.Chance(0.6) {
			d = genData(r, s.genLen(r, 150))
			var err error
			nd, err = s.importBytes(base, d)
			c.Must(err, "import")
			desc = s.String()
		}
		x := &appendHist{s: s}
		for k := r.Range(1, 4); k > 0; k-- {
			x.pieces = append(x.pieces, genData(r, s.genLen(r, 60)))
		}
		hist, start = x, &version{c: nd.Cid(), file: d}
		c.Logf("append %d pieces to %d bytes, %s", len(x.pieces), len(d), desc)
	case 2:
		kind = "modifiers"
		setLinksPerBlock(pick(r, 2, 3, 4, 5, 8, 174))
		b := pick(r, modBuilders...)
		nd, d, desc := startFile(c, base, b)
		x := &modHist{c: c, ch: genModChunks(r), raw: r.Chance(0.2)}
		g := &modDrv{c: c, model: d}
		for k := r.Range(3, 12); k > 0; k-- {
			o := g.genOp()
			if k == 1 {
				o = modOp{kind: "GetNode"}
			}
			x.ops = append(x.ops, o)
			if nm, nc, ok := g.after(o); ok {
				g.model, g.cur = nm, nc
			}
		}
		hist, start = x, &version{c: nd.Cid(), file: d}
		c.Logf("modifier on %d bytes, %s (cid %s): %v", len(d), desc, b.name, x.ops)
	default:
		x := &dirHist{shard: r.Chance(0.4)}
		kind = "directories"
		if x.shard {
			kind = "shards"
		}
		cfg := genDirCfg(r)
		if cfg.threshold > 400 {
			cfg.threshold = 400
		}
		if x.shard {
			cfg.threshold, cfg.hamt = 0, true
		}
		d := newDirDrvOn(c, base, cfg, r.Range(3, 25))
		setShardWidth(cfg.width)
		setShardingSize(cfg.threshold)
		for k := r.Intn(25); k > 0; k-- {
			d.mutate(0.75)
		}
		nd, err := d.dir.GetNode()
		c.Must(err, "getnode")
		c.Must(base.Add(bg, nd), "add")
		start = &version{c: nd.Cid(), entries: cloneModel(d.model), isDir: true}
		for k := r.Range(3, 14); k > 0; k-- {
			switch q := r.Intn(10); {
			case q < 5:
				x.ops = append(x.ops, dirOp{"add", r.pickStr(d.names), d.nodes[r.Intn(len(d.nodes))]})
			case q < 8:
				n := d.present()
				if n == "" {
					n = r.pickStr(d.names)
				}
				x.ops = append(x.ops, dirOp{"remove", n, nil})
			default:
				x.ops = append(x.ops, dirOp{kind: "node"})
			}
		}
		x.ops = append(x.ops, dirOp{kind: "node"})
		hist = x
		c.Logf("%s: %d operations on %d entries", kind, len(x.ops), len(d.model))
	}
	c.Count(kind, 1)

	// run executes the history from a version on m; it returns the versions
	// handed out and the step which did not complete (-1: none).
	run := func(m *memDAG, from *version, at int) ([]*version, int, error) {
		if err := hist.open(m, from); err != nil {
			return nil, at, err
		}
		var out []*version
		for i := at; i < hist.steps(); i++ {
			v, err := hist.step(i)
			if err != nil {
				return out, i, err
			}
			if v != nil {
				v.step = i
				out = append(out, v)
			}
		}
		return out, -1, nil
	}
	watch := func(m *memDAG, when string) {
		m.mu.Lock()
		defer m.mu.Unlock()
		if len(m.orphans) > 0 {
			c.Fail("not-closed:"+kind, "%s: block %s", when, m.orphans[0])
		}
		if m.removes > 0 {
			c.Fail("removed:"+kind, "%s: the library removed blocks from the store", when)
		}
		c.Count("blocks_watched", m.adds)
	}

	whole := base.clone()
	whole.closed = true
	whole.shuffle = newRng(c.Seed + 2)
	vs, bad, err := run(whole, start, 0)
	watch(whole, "no crash")
	c.Check(bad < 0, "failed", "step %d failed without a crash: %v", bad, err)
	for _, v := range vs {
		v.check(c, whole, "no crash")
	}
	last := vs[len(vs)-1]
	n := whole.ops()
	c.Max("store_operations", n)

	// crash points: all of a short history, a sample of a long one
	var at []int
	if n <= 6 {
		for i := 0; i < n; i++ {
			at = append(at, i)
		}
	} else {
		for len(at) < 6 {
			at = append(at, r.Intn(n))
		}
	}
	for _, a := range at {
		m := base.clone()
		m.closed = true
		m.shuffle = newRng(c.Seed + 2)
		k := 0
		m.setFault(func(Op) error {
			k++
			if k > a {
				return errCrash
			}
			return nil
		})
		done, stopped, err := run(m, start, 0)
		when := fmt.Sprintf("crash after %d of %d store operations", a, n)
		watch(m, when)
		if stopped < 0 { // the operation that crashed was a look-ahead nobody needed
			c.Count("crashes_unnoticed", 1)
			c.Eval("")
			continue
		}
		c.Logf("%s: step %d stopped with %v", when, stopped, err)
		c.Count("crashes", 1)
		// restart on what survived
		m.settle()
		s := m.clone()
		s.closed = true
		for _, v := range done {
			v.check(c, s, when)
		}
		from, next := start, 0
		if len(done) > 0 {
			from = done[len(done)-1]
			next = from.step + 1
		}
		if kind != "imports" {
			from.check(c, s, when)
		}
		if kind == "modifiers" {
			// the cursor is not part of a version: redo everything
			from, next = start, 0
		}
		again, bad, err := run(s, from, next)
		watch(s, "after a restart")
		c.Check(bad < 0, "no-restart", "%s; restarted, step %d fails: %v", when, bad, err)
		end := from
		if len(again) > 0 {
			end = again[len(again)-1]
		}
		end.check(c, s, "after a restart")
		if kind == "imports" || kind == "appends" {
			c.Check(end.c.Equals(last.c), "restart-root", "%s; restarted, the result is %s instead of %s", when, end.c, last.c)
		}
		c.Count("resumed", 1)
		c.Eval(fmt.Sprint(kind, "|", start.c, "|", last.c, "|", a))
	}
	c.Sample(head(fmt.Sprint(c.trace), 300))
}
