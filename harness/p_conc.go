package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	register(&Prop{
		ID: "C16", Quick: 1650, Thorough: 35000, Race: true, Leak: true, Procs: 4,
		Rule:        "a case runs 2..6 goroutines of the real library on one store under the race detector (own readers, importers, modifiers and directories; shared nodes; several iterators of one file-tree directory; closing a reader in use; directory updates right after early-ending size enumerations) with injected yields and delays, each goroutine's results judged by its sequential model; non-trivial = at least two goroutines ran library code, keyed by workload and observed order of store operations",
		Assumptions: []string{"shared nodes are store-fetched (their encodings are cached); package variables are set before the goroutines start"},
		Required:    []string{"kind_mixed", "kind_tree", "kind_close", "kind_directory", "kind_abandon", "kind_monitored", "goroutines", "quiet_after_return", "closed_in_use"},
		Run:         runC16,
	})
}

// group runs model-checked goroutines and re-raises the first failure.
type group struct {
	c  *Case
	wg sync.WaitGroup
	mu sync.Mutex
	f  *failure
	n  int
}

func (g *group) sub() *Case {
	return &Case{P: g.c.P, Index: g.c.Index, Seed: mix(g.c.Seed, uint64(g.n+1)), Thor: g.c.Thor, R: newRng(g.c.R.Uint64()), w: g.c.w}
}

func (g *group) run(what string, f func(c *Case)) {
	c := g.sub()
	g.n++
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		defer func() {
			if e := recover(); e != nil {
				x, ok := e.(failure)
				if !ok {
					panic(e)
				}
				g.mu.Lock()
				if g.f == nil {
					g.f = &failure{x.sig, what + ": " + x.msg + "\n" + strings.Join(c.trace, "\n")}
				}
				g.mu.Unlock()
			}
		}()
		f(c)
	}()
}

func (g *group) wait() {
	g.wg.Wait()
	g.c.Count("goroutines", g.n)
	if g.f != nil {
		panic(*g.f)
	}
}

func randomDelays(r *Rng, m *memDAG) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.yield = true
	if r.Chance(0.6) {
		d := r.Range(1, 200)
		dr := newRng(r.Uint64())
		var mu sync.Mutex
		m.delay = func(Op) time.Duration {
			mu.Lock()
			defer mu.Unlock()
			if dr.Intn(3) > 0 {
				return 0
			}
			return time.Duration(dr.Intn(d)) * time.Microsecond
		}
	}
}

func tail4(s string) string { return s[max(0, len(s)-4):] }

func (m *memDAG) order_() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	var b strings.Builder
	for _, g := range m.getLog {
		b.WriteString(tail4(g))
	}
	for _, a := range m.addCids {
		b.WriteString(tail4(string(a.Hash())))
	}
	return b.String()
}

func runC16(c *Case) {
	r := c.R
	if r.Chance(0.3) {
		concMonitored(c)
		c.Count("kind_monitored", 1)
		c.Eval(fmt.Sprint("monitored", c.Seed))
		return
	}
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	links := pick(r, 3, 5, 8, 174)
	cfg := dirCfg{width: pick(r, 8, 8, 16, 32, 256), threshold: pick(r, 0, 100, 200, 400, 800), b: pick(r, builders...)}
	cfg.hamt = cfg.threshold == 0 && r.Chance(0.7)
	setGlobals(links, cfg.width, cfg.threshold)
	kind := pick(r, "mixed", "mixed", "tree", "close", "directory", "directory", "abandon")
	c.Logf("%s %s", kind, cfg)
	g := &group{c: c}
	switch kind {
	case "mixed":
		concMixed(c, g, m, cfg)
	case "tree":
		concTree(c, g, m)
	case "close":
		concClose(c, g, m)
	case "directory":
		concDirectory(c, g, m, cfg)
	case "abandon":
		concAbandon(c, g, m, cfg)
	}
	c.Count("kind_"+kind, 1)
	o := m.order_()
	c.State("store_orders", o)
	c.Eval(kind + o)
	c.Sample(fmt.Sprintf("%s %s goroutines=%d store operations=%d", kind, cfg, g.n, m.ops()))
}

// concMixed: unrelated users of one store, some sharing read-only nodes.
func concMixed(c *Case, g *group, m *memDAG, cfg dirCfg) {
	r := c.R
	file, data, _ := genFile(c, m, 4000)
	file, err := m.get(file.Cid())
	c.Must(err, "get")
	tree := genDirTree(c, m, 1, 12)
	tnd, err := m.get(tree.nd.Cid())
	c.Must(err, "get")
	randomDelays(r, m)
	k := r.Range(2, 6)
	for i := 0; i < k; i++ {
		switch what := pick(r, "reader", "reader", "import", "modifier", "directory", "resolve", "list", "shard"); what {
		case "reader":
			g.run(what, func(c *Case) {
				dr, err := uio.NewDagReader(bg, file, m)
				c.Must(err, "open")
				defer dr.Close()
				for i := 0; i < 15; i++ {
					off := int64(c.R.Intn(len(data) + 1))
					p, err := dr.Seek(off, io.SeekStart)
					c.Must(err, "seek")
					c.Check(p == off, "seek", "seek to %d gave %d", off, p)
					b := make([]byte, c.R.Intn(500))
					n, err := io.ReadFull(dr, b)
					want := data[off:]
					if len(want) > len(b) {
						want = want[:len(b)]
					}
					c.Check(bytes.Equal(b[:n], want), "read", "at %d: %s (%v)", off, diffBytes(b[:n], want), err)
				}
			})
		case "import":
			g.run(what, func(c *Case) {
				s := genImp(c.R)
				d := c.R.Bytes(s.genLen(c.R, 60))
				nd, err := s.importBytes(m, d)
				c.Must(err, "import")
				ref, _ := s.ref(d, nil)
				c.Check(nd.Cid().Equals(ref.c), "import-cid", "root %s, want %s", nd.Cid(), ref.c)
				if s.trickle && len(d) > 0 && !s.raw {
					// the base is the goroutine's own
					e := c.R.Bytes(c.R.Intn(600))
					nd, err = s.appendBytes(m, nd, e)
					c.Must(err, "append")
					c.Must(m.Add(bg, nd), "add")
					a, err := m.audit(nd.Cid())
					c.Must(err, "audit")
					c.Check(bytes.Equal(a.content, append(append([]byte(nil), d...), e...)), "append", "wrong content")
				}
			})
		case "modifier":
			g.run(what, func(c *Case) {
				d := newModDrvOn(c, m, pick(c.R, builders[:6]...))
				for i := 0; i < 15; i++ {
					o := d.genOp()
					c.Logf("%s", o)
					d.judge(o, d.exec(o))
				}
				nd, err := d.dm.GetNode()
				c.Must(err, "getnode")
				d.checkNode(nd, "content")
			})
		case "directory":
			g.run(what, func(c *Case) { concDir(c, newDirDrvOn(c, m, cfg, 25), 25) })
		case "resolve":
			g.run(what, func(c *Case) {
				for n, k := range tree.kids {
					if tnd.Links() == nil {
						break
					}
					l, _, err := uio.ResolveUnixfsOnce(bg, m, tnd, []string{n})
					c.Must(err, "resolve")
					c.Check(l.Cid.Equals(k.nd.Cid()), "resolve", "%q resolves to %s", n, l.Cid)
				}
			})
		case "list":
			g.run(what, func(c *Case) {
				model := map[string]rEntry{}
				for n, k := range tree.kids {
					model[n] = linkEntry(k.nd.Copy())
				}
				dir, err := uio.NewDirectoryFromNode(m, tnd)
				c.Must(err, "fromnode")
				for way := 0; way < 3; way++ {
					how, ls, err := listVia(bg, dir, way)
					c.Must(err, "list-err:"+how)
					compareListing(c, how, ls, model)
				}
			})
		case "shard":
			g.run(what, func(c *Case) {
				d := newShardDrvOn(c, m, false)
				for i := 0; i < 25; i++ {
					d.step(0.7)
				}
				d.checkCid("canonical")
			})
		}
	}
	g.wait()
	m.checkIntegrity(c)
}

func concDir(c *Case, d *dirDrv, n int) {
	for i := 0; i < n; i++ {
		switch c.R.Intn(6) {
		case 0:
			d.list()
		case 1:
			d.find(c.R.pickStr(d.names))
		case 2:
			d.reload()
		default:
			d.mutate(0.6)
		}
	}
	d.list()
}

// concTree: several iterators over one opened file-tree directory.
func concTree(c *Case, g *group, m *memDAG) {
	r := c.R
	t := genDirTree(c, m, 2, 20)
	nd, err := m.get(t.nd.Cid())
	c.Must(err, "get")
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	f, err := unixfile.NewUnixfsFile(ctx, m, nd)
	c.Must(err, "open")
	randomDelays(r, m)
	k := r.Range(2, 5)
	for i := 0; i < k; i++ {
		v := f
		if r.Chance(0.2) { // another view of the same node
			v, err = unixfile.NewUnixfsFile(ctx, m, nd)
			c.Must(err, "open")
		}
		g.run("walk", func(c *Case) {
			var st walkStat
			if err := walkTree(c.R, v, t, "", &st, true); err != nil {
				c.Fail("tree-walk", "%v", err)
			}
			c.Count("tree_entries", st.entries)
		})
	}
	g.wait()
}

// concClose: a reader is closed while another goroutine uses it.
func concClose(c *Case, g *group, m *memDAG) {
	r := c.R
	nd, data, _ := genFile(c, m, 6000)
	dr, err := uio.NewDagReader(bg, nd, m)
	c.Must(err, "open")
	randomDelays(r, m)
	pos := r.Intn(m.ops() + 20)
	start := make(chan struct{})
	var once sync.Once
	base := m.ops()
	m.setFault(func(op Op) error {
		if op.N-base >= pos {
			once.Do(func() { close(start) })
		}
		return nil
	})
	mode := r.Intn(3)
	g.run("reader", func(c *Case) {
		defer once.Do(func() { close(start) })
		var got []byte
		var err error
		switch mode {
		case 0:
			b := make([]byte, len(data)+1)
			var n int
			n, err = dr.Read(b)
			got = b[:n]
		case 1:
			var w bytes.Buffer
			_, err = dr.WriteTo(&w)
			got = w.Bytes()
			if err == nil {
				c.Check(len(got) == len(data), "close-short", "WriteTo ended after %d of %d bytes without an error", len(got), len(data))
			}
		default:
			b := make([]byte, 64)
			for {
				var n int
				n, err = dr.CtxReadFull(bg, b)
				got = append(got, b[:n]...)
				if err != nil {
					break
				}
			}
			if err == io.EOF {
				c.Check(len(got) == len(data), "close-eof", "EOF after %d of %d bytes", len(got), len(data))
			}
		}
		c.Check(len(got) <= len(data) && bytes.Equal(got, data[:len(got)]), "close-wrong", "wrong bytes")
	})
	g.run("closer", func(c *Case) {
		<-start
		if c.R.Chance(0.5) {
			runtime.Gosched()
		}
		c.Must(dr.Close(), "close")
		dr.Close()
		_ = dr.Size()
		c.Count("closed_in_use", 1)
	})
	g.wait()
}

// concDirectory: updates of directories whose size checks end early; when an
// operation has returned nothing of it may be left running.
func concDirectory(c *Case, g *group, m *memDAG, cfg dirCfg) {
	r := c.R
	if cfg.threshold == 0 {
		cfg.threshold, cfg.hamt = pick(r, 60, 100, 200, 400), false
		setGlobals(h.DefaultLinksPerBlock, cfg.width, cfg.threshold)
	}
	d := newDirDrvOn(c, m, cfg, r.Range(20, 60))
	for d.size() < cfg.threshold+r.Intn(600) && len(d.model) < len(d.names) {
		d.add(c.R.pickStr(d.names), d.nodes[r.Intn(len(d.nodes))])
	}
	d.reload()
	if r.Chance(0.5) {
		randomDelays(r, m)
	}
	g.n = 1
	n := r.Range(5, 25)
	for i := 0; i < n; i++ {
		if r.Chance(0.15) {
			d.reload()
		}
		switch r.Intn(5) {
		case 0:
			d.find(r.pickStr(d.names))
		case 1:
			d.list()
		case 2: // an enumeration abandoned before the update
			ctx, cancel := context.WithCancel(bg)
			ch := d.dir.EnumLinksAsync(ctx)
			for j := r.Intn(3); j > 0; j-- {
				<-ch
			}
			cancel()
			for range ch {
			}
		default:
			d.mutate(0.4)
		}
		m.mu.Lock()
		calls := m.calls
		m.mu.Unlock()
		if r.Chance(0.3) {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			m.mu.Lock()
			after := m.calls
			m.mu.Unlock()
			c.Check(after == calls, "busy-after-return", "the store was asked for %d more blocks after the directory operation had returned", after-calls)
			c.Count("quiet_after_return", 1)
		}
	}
	d.checkCanonical("canonical")
	g.wait()
}

// concAbandon: enumerations, iterators and imports dropped half way.
func concAbandon(c *Case, g *group, m *memDAG, cfg dirCfg) {
	r := c.R
	t := genDirTree(c, m, 1, 40)
	nd, err := m.get(t.nd.Cid())
	c.Must(err, "get")
	randomDelays(r, m)
	for i := r.Range(2, 5); i > 0; i-- {
		g.run("abandon", func(c *Case) {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			switch c.R.Intn(4) {
			case 0:
				dir, err := uio.NewDirectoryFromNode(m, nd)
				c.Must(err, "fromnode")
				ch := dir.EnumLinksAsync(ctx)
				for j := c.R.Intn(4); j > 0; j-- {
					<-ch
				}
			case 1:
				f, err := unixfile.NewUnixfsFile(ctx, m, nd)
				c.Must(err, "open")
				it := f.(files.Directory).Entries()
				for j := c.R.Intn(4); j > 0 && it.Next(); j-- {
				}
			case 2:
				fl, _, _ := genFile(c, m, 3000)
				dr, err := uio.NewDagReader(ctx, fl, m)
				c.Must(err, "open")
				b := make([]byte, c.R.Intn(800))
				io.ReadFull(dr, b)
			default:
				if t.shard {
					s, err := hamt.NewHamtFromDag(m, nd)
					c.Must(err, "fromdag")
					n := c.R.Intn(4)
					s.ForEachLink(ctx, func(*ipld.Link) error {
						n--
						if n <= 0 {
							cancel()
						}
						return nil
					})
				}
			}
		})
	}
	g.wait()
}

var _ = ft.TFile

// concMonitored runs a case of another property, with its faults, delays and
// cancellations, for the race detector, the leak monitor and the watchdog.
// What that property's own monitors say is its own check's business.
func concMonitored(c *Case) {
	p := props[pick(c.R, "C05", "C10", "C11", "C15", "C15", "C17", "C23", "C28", "C29", "C29")]
	c.Logf("a case of %s", p.ID)
	w := &Worker{prop: p, tier: c.w.tier, seed: c.w.seed, sum: newSummary()}
	w.curCase.Store(-1)
	sub := &Case{P: p, Index: c.Index, Seed: mix(c.Seed, 77), R: newRng(mix(c.Seed, 77)), w: w}
	defer func() {
		e := recover()
		c.mu.Lock()
		c.trace = append(c.trace, sub.trace...)
		c.mu.Unlock()
		if e == nil {
			return
		}
		if _, ok := e.(failure); ok {
			c.Count("monitored_failures", 1)
			return
		}
		panic(e)
	}()
	p.Run(sub)
	c.Count("monitored_"+p.ID, 1)
}
