package main

import (
	"context"
	"errors"
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 24000, Thorough: 431999,
		Rule:        "a case runs 10..80 generated operations on one directory (basic, sharded or switching; names with crafted hash prefixes) and compares every result and listing with a map; non-trivial = entries were added and listed, keyed by configuration and history",
		Assumptions: []string{"non-empty names; healthy store"},
		Required:    []string{"adds", "replaces", "removes", "missing_removes", "finds", "missing_finds", "listings", "reloads", "switches_to_hamt", "switches_to_basic", "refused_inseparable", "builder_changes_basic", "builder_changes_hamt", "flawed_bases"},
		Leak:        true,
		Run:         runC11,
	})
	register(&Prop{
		ID: "C12", Quick: 16000, Thorough: 288000,
		Rule:        "a case runs a generated history on one directory under a fixed threshold and compares the root CID after every step with the canonical form (reference encoder) of the entries the directory holds; non-trivial = a history with at least one removal or replacement, keyed by configuration and history",
		Assumptions: []string{"reference encoders in harness/ref.go; one threshold, width and CID builder per directory"},
		Required:    []string{"cid_checks", "switches_to_hamt", "switches_to_basic", "disabled_cases", "at_threshold", "at_threshold_removals", "reloads"},
		Run:         runC12,
	})
	register(&Prop{
		ID: "C17", Level: "fault_enumeration", Quick: 30000, Thorough: 480000,
		Rule:        "a case builds a directory (basic, sharded or at a switching boundary), re-loads it and repeats one operation with a fault or cancellation at every enumerated storage operation, checking error, entries and CID after each; non-trivial = a fault that fired, keyed by directory, operation and position",
		Assumptions: []string{"non-empty names"},
		Required:    []string{"failed_AddChild", "failed_RemoveChild", "failed_Find", "cancelled_ops", "retries_ok", "switching_ops", "unsized_entries"},
		Run:         runC17,
	})
}

// dirCfg is the configuration a directory case runs under.
type dirCfg struct {
	width     int
	threshold int
	b         bspec
	hamt      bool // starts sharded
}

func (d dirCfg) String() string {
	return fmt.Sprintf("width=%d threshold=%d cid=%s sharded=%v", d.width, d.threshold, d.b.name, d.hamt)
}

var widths = []int{8, 16, 32, 64, 128, 256, 512, 1024}

func genDirCfg(r *Rng) dirCfg {
	c := dirCfg{width: pick(r, 8, 8, 16, 16, 32, 64, 128, 256, 512, 1024), b: pick(r, builders...)}
	switch r.Intn(4) {
	case 0:
		c.hamt = r.Chance(0.7)
	default:
		c.threshold = pick(r, 60, 100, 200, 400, 800, 1500)
	}
	return c
}

// genNames makes a pool of directory names, many of which share hash
// prefixes of various lengths at the given width.
func genNames(r *Rng, n, width int, full bool) []string {
	lg := bits.TrailingZeros(uint(width))
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	var hashes []uint64
	for len(out) < n {
		switch r.Intn(8) {
		case 0:
			add(pick(r, "a", "b", "0", "00", "000", "FF", "0A", "0Afoo", "FFFF", ".", "..", "a b", "é", "名前", "x/y", "%2f", "README.md", "1", "\x00", "\xff\xfe"))
		case 1:
			add(fmt.Sprintf("file%d.txt", r.Intn(100)))
		case 2:
			add(strings.Repeat(pick(r, "n", "xy", "long"), r.Range(1, 80)))
		case 3:
			if len(out) > 0 { // a name extending another
				o := out[r.Intn(len(out))]
				switch r.Intn(4) { // or one that only looks alike
				case 0:
					add(strings.ToUpper(o))
				case 1:
					add(pick(r, strings.ToLower(o), strings.TrimSpace(o), o+" ", " "+o, o+"\x00", "./"+o, o+"/", strings.ReplaceAll(o, "é", "e\u0301"), strings.ToValidUTF8(o, "\uFFFD")))
				default:
					add(o + pick(r, "0", "x", ".bak"))
				}
			}
		default:
			h := r.Uint64()
			if len(hashes) > 0 && r.Chance(0.7) { // share k slots with an earlier name
				h = hashes[r.Intn(len(hashes))]
				max := 64 / lg
				k := r.Range(1, max-1)
				if r.Chance(0.3) {
					k = max - 1
				}
				if full && r.Chance(0.3) {
					k = max
				}
				keep := k * lg
				if keep >= 64 {
					// full collision
				} else {
					low := r.Uint64() & (1<<uint(64-keep) - 1)
					h = h>>uint(64-keep)<<uint(64-keep) | low
					if !full && k < max { // differ within the usable bits
						nb := 64 - keep - lg
						if nb >= 0 {
							h ^= uint64(r.Range(1, width-1)) << uint(nb)
						}
					}
				}
			}
			hashes = append(hashes, h)
			add(nameWithHash(h, r.Uint64()))
		}
	}
	return out
}

// separable drops names that cannot be told apart at a width.
func separable(names []string, width int) []string {
	ref := newRefHAMT(width, bspec{})
	var out []string
	for _, n := range names {
		ok := true
		for _, o := range out {
			if ref.collides(refMurmur64([]byte(n)), refMurmur64([]byte(o))) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	return out
}

// genEntryNodes stores a pool of nodes directories can point at.
func genEntryNodes(c *Case, m *memDAG, n int) []ipld.Node {
	var out []ipld.Node
	for i := 0; i < n; i++ {
		b := pick(c.R, builders...)
		d := c.R.Bytes(c.R.Intn(60))
		var nd ipld.Node
		switch c.R.Intn(5) {
		case 4: // directories may hold anything
			nd = newForeign(d)
		case 0:
			rn := mdag.NewRawNode(d)
			if b.b != nil {
				var err error
				rn, err = mdag.NewRawNodeWPrefix(d, b.b)
				c.Must(err, "raw")
			}
			nd = rn
		case 1:
			pn := ft.EmptyDirNode()
			pn.SetCidBuilder(b.b)
			if len(out) > 0 {
				c.Must(pn.AddNodeLink("x", out[c.R.Intn(len(out))]), "link")
			}
			nd = pn
		default:
			pn := mdag.NodeWithData(ft.FilePBData(d, uint64(len(d))))
			pn.SetCidBuilder(b.b)
			nd = pn
		}
		c.Must(m.Add(bg, nd), "add")
		out = append(out, nd)
	}
	return out
}

func linkEntry(nd ipld.Node) rEntry {
	s, err := nd.Size()
	if err != nil {
		panic("zverif: " + err.Error())
	}
	return rEntry{nd.Cid(), s}
}

// dirDrv drives one directory next to its model map.
type dirDrv struct {
	c     *Case
	m     *memDAG
	cfg   dirCfg
	dir   uio.Directory
	model map[string]rEntry
	names []string
	nodes []ipld.Node
	kind  string
	key   []byte
}

func newDirDrv(c *Case, cfg dirCfg, nnames int) *dirDrv {
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	setShardWidth(cfg.width)
	setShardingSize(cfg.threshold)
	return newDirDrvOn(c, m, cfg, nnames)
}

// newDirDrvOn uses the given store and leaves the package variables alone.
func newDirDrvOn(c *Case, m *memDAG, cfg dirCfg, nnames int) *dirDrv {
	d := &dirDrv{c: c, m: m, cfg: cfg, model: map[string]rEntry{}}
	d.names = separable(genNames(c.R, nnames, cfg.width, false), cfg.width)
	d.nodes = genEntryNodes(c, m, 8)
	if cfg.hamt {
		s, err := hamt.NewShard(m, cfg.width)
		c.Must(err, "newshard")
		s.SetCidBuilder(cfg.b.b)
		nd, err := s.Node()
		c.Must(err, "shardnode")
		d.dir, err = uio.NewDirectoryFromNode(m, nd)
		c.Must(err, "fromnode")
	} else {
		d.dir = uio.NewDirectory(m)
		d.dir.SetCidBuilder(cfg.b.b)
	}
	c.Logf("%s", cfg)
	d.kind = d.kindNow()
	d.key = []byte(cfg.String())
	return d
}

func (d *dirDrv) kindNow() string {
	x := d.dir
	if dyn, ok := x.(*uio.DynamicDirectory); ok {
		x = dyn.Directory
	}
	switch x.(type) {
	case *uio.BasicDirectory:
		return "basic"
	case *uio.HAMTDirectory:
		return "hamt"
	}
	return "?"
}

func (d *dirDrv) noteKind() {
	k := d.kindNow()
	if k != d.kind {
		d.c.Count("switches_to_"+k, 1)
		d.c.Logf("  now %s", k)
		d.kind = k
	}
}

func (d *dirDrv) size() int {
	s := 0
	for n, e := range d.model {
		s += len(n) + e.Cid.ByteLen()
	}
	return s
}

func (d *dirDrv) add(name string, nd ipld.Node) {
	c := d.c
	c.Logf("add %q %s", name, nd.Cid())
	_, had := d.model[name]
	c.Must(d.dir.AddChild(bg, name, nd), "add-err")
	d.model[name] = linkEntry(nd)
	if had {
		c.Count("replaces", 1)
	}
	c.Count("adds", 1)
	d.key = append(d.key, 'a', byte(hash64(name)), byte(hash64(nd.Cid().KeyString())))
	d.noteKind()
}

func (d *dirDrv) remove(name string) {
	c := d.c
	c.Logf("remove %q", name)
	err := d.dir.RemoveChild(bg, name)
	if _, had := d.model[name]; had {
		c.Must(err, "remove-err")
		delete(d.model, name)
		c.Count("removes", 1)
	} else {
		c.Check(errors.Is(err, os.ErrNotExist), "remove-missing", "removing the missing name %q returned %v", name, err)
		c.Count("missing_removes", 1)
	}
	d.key = append(d.key, 'r', byte(hash64(name)))
	d.noteKind()
}

func (d *dirDrv) find(name string) {
	c := d.c
	nd, err := d.dir.Find(bg, name)
	e, had := d.model[name]
	if !had {
		c.Check(errors.Is(err, os.ErrNotExist), "find-missing", "looking up the missing name %q returned %v, %v", name, nd, err)
		c.Count("missing_finds", 1)
		return
	}
	c.Must(err, "find-err")
	c.Check(nd.Cid().Equals(e.Cid), "find-wrong", "looking up %q returned %s, want %s", name, nd.Cid(), e.Cid)
	c.Count("finds", 1)
}

// compareListing checks a listing against the model.
func compareListing(c *Case, how string, got []*ipld.Link, model map[string]rEntry) {
	seen := map[string]bool{}
	for _, l := range got {
		e, ok := model[l.Name]
		c.Check(ok, "list-extra:"+how, "%s lists %q (%s), which is not an entry", how, l.Name, l.Cid)
		c.Check(!seen[l.Name], "list-dup:"+how, "%s lists %q twice", how, l.Name)
		seen[l.Name] = true
		c.Check(l.Cid.Equals(e.Cid), "list-cid:"+how, "%s lists %q as %s, want %s", how, l.Name, l.Cid, e.Cid)
		c.Check(l.Size == e.Tsize, "list-size:"+how, "%s lists %q with size %d, want %d", how, l.Name, l.Size, e.Tsize)
	}
	if len(seen) != len(model) {
		var miss []string
		for n := range model {
			if !seen[n] {
				miss = append(miss, n)
			}
		}
		sort.Strings(miss)
		c.Fail("list-missing:"+how, "%s lists %d of %d entries; missing %q...", how, len(seen), len(model), miss[0])
	}
	c.Count("listings", 1)
	c.Count("entries_listed", len(got))
}

type lister interface {
	ForEachLink(context.Context, func(*ipld.Link) error) error
	EnumLinksAsync(context.Context) <-chan ft.LinkResult
}

// listVia enumerates with one of the three ways.
func listVia(ctx context.Context, d uio.Directory, way int) (string, []*ipld.Link, error) {
	switch way {
	case 0:
		ls, err := d.Links(ctx)
		return "Links", ls, err
	case 1:
		var ls []*ipld.Link
		err := d.ForEachLink(ctx, func(l *ipld.Link) error { x := *l; ls = append(ls, &x); return nil })
		return "ForEachLink", ls, err
	default:
		var ls []*ipld.Link
		for r := range d.EnumLinksAsync(ctx) {
			if r.Err != nil {
				return "EnumLinksAsync", ls, r.Err
			}
			ls = append(ls, r.Link)
		}
		return "EnumLinksAsync", ls, nil
	}
}

func (d *dirDrv) list() {
	how, ls, err := listVia(bg, d.dir, d.c.R.Intn(3))
	d.c.Must(err, "list-err:"+how)
	compareListing(d.c, how+"("+d.kind+")", ls, d.model)
}

func (d *dirDrv) reload() {
	c := d.c
	c.Logf("reload")
	nd, err := d.dir.GetNode()
	c.Must(err, "getnode")
	// a basic directory's node is not stored by the directory itself
	if d.kind == "basic" {
		c.Must(d.m.Add(bg, nd), "add")
	}
	if c.R.Chance(0.7) {
		nd, err = d.m.Get(bg, nd.Cid())
		c.Must(err, "stored")
	}
	d.dir, err = uio.NewDirectoryFromNode(d.m, nd)
	c.Must(err, "fromnode")
	c.Count("reloads", 1)
	d.key = append(d.key, 'l')
	d.noteKind()
}

func (d *dirDrv) present() string { // a name that is an entry, or ""
	if len(d.model) == 0 {
		return ""
	}
	ns := make([]string, 0, len(d.model))
	for n := range d.model {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns[d.c.R.Intn(len(ns))]
}

// mutate runs one generated mutation; bias > 0.5 grows, < 0.5 shrinks.
func (d *dirDrv) mutate(bias float64) {
	c := d.c
	if c.R.Chance(bias) {
		name := c.R.pickStr(d.names)
		if c.R.Chance(0.15) {
			if p := d.present(); p != "" {
				name = p
			}
		}
		d.add(name, d.nodes[c.R.Intn(len(d.nodes))])
		return
	}
	name := d.present()
	if name == "" || c.R.Chance(0.1) {
		name = c.R.pickStr(d.names)
	}
	d.remove(name)
}

func (r *Rng) pickStr(s []string) string { return s[r.Intn(len(s))] }

// setBuilder changes the CID format of a directory of any form.
func (d *dirDrv) setBuilder(b bspec) {
	c := d.c
	c.Logf("SetCidBuilder(%s)", b.name)
	d.dir.SetCidBuilder(b.b)
	d.cfg.b = b
	d.key = append(d.key, 'b')
	c.Count("builder_changes_"+d.kind, 1)
	d.checkPrefix()
}

// checkPrefix: the root node has the CID format the directory was given.
func (d *dirDrv) checkPrefix() {
	c := d.c
	nd, err := d.dir.GetNode()
	c.Must(err, "getnode")
	want := d.cfg.b.pb(nd.RawData())
	c.Check(nd.Cid().Equals(want), "prefix", "the node of the (%s) directory is %s, its CID format %s makes that %s", d.kind, nd.Cid(), d.cfg.b.name, want)
}

// runC11Inseparable fills a switching directory with names some of which no
// sharded directory of its width can hold together: an operation may be
// refused when the directory has to be sharded, and then changes nothing.
func runC11Inseparable(c *Case) {
	r := c.R
	cfg := dirCfg{width: pick(r, 8, 16, 64, 256, 1024), b: pick(r, builders...), threshold: pick(r, 60, 100, 200, 400, 800)}
	d := newDirDrv(c, cfg, 3)
	names := genNames(r, r.Range(2, 12), cfg.width, true)
	// pairs with the same usable hash bits
	for i := r.Range(1, 3); i > 0; i-- {
		h := refMurmur64([]byte(r.pickStr(names)))
		n := nameWithHash(h, r.Uint64())
		names = append(names, n)
	}
	d.names = names
	clash := func(model map[string]rEntry) bool {
		var ns []string
		for n := range model {
			ns = append(ns, n)
		}
		return len(separable(ns, cfg.width)) != len(ns)
	}
	refused := 0
	for i := r.Range(8, 50); i > 0; i-- {
		name := r.pickStr(names)
		after := cloneModel(d.model)
		var err error
		var op string
		nd := d.nodes[r.Intn(len(d.nodes))]
		if r.Chance(0.65) {
			op = "add"
			after[name] = linkEntry(nd)
			err = d.dir.AddChild(bg, name, nd)
		} else {
			op = "remove"
			if p := d.present(); p != "" && r.Chance(0.8) {
				name = p
			}
			_, had := after[name]
			delete(after, name)
			err = d.dir.RemoveChild(bg, name)
			if !had {
				c.Check(errors.Is(err, os.ErrNotExist), "remove-missing", "removing the missing name %q returned %v", name, err)
				continue
			}
		}
		c.Logf("%s %q: %v", op, name, err)
		size := 0
		for n, e := range after {
			size += len(n) + e.Cid.ByteLen()
		}
		holds := size < cfg.threshold || !clash(after)
		if err == nil {
			c.Check(holds, "inseparable-accepted", "%s of %q was accepted although %d bytes of entries have to be sharded and their names cannot be told apart", op, name, size)
			d.model = after
		} else {
			c.Check(!holds, "refused", "%s of %q: %v", op, name, err)
			refused++
			c.Count("refused_inseparable", 1)
		}
		d.noteKind()
		how, ls, err := listVia(bg, d.dir, r.Intn(3))
		c.Must(err, "list-err:"+how)
		compareListing(c, how+"("+d.kind+")", ls, d.model)
		d.find(name)
		d.key = append(d.key, byte(hash64(name)))
	}
	key := ""
	if refused > 0 {
		key = string(d.key)
	}
	c.Eval(key)
}

func runC11(c *Case) {
	if c.R.Chance(0.06) {
		runC11Inseparable(c)
		return
	}
	cfg := genDirCfg(c.R)
	pool, nops := c.R.Range(3, 60), c.R.Range(10, 80)
	large := c.R.Chance(0.005)
	if large {
		pool, nops = c.R.Range(200, 700), c.R.Range(500, 900)
		if cfg.threshold > 0 {
			cfg.threshold = c.R.Range(2000, 30000)
			cfg.hamt = false
		}
		c.Count("large_directories", 1)
	}
	d := newDirDrv(c, cfg, pool)
	if cfg.hamt && c.R.Chance(0.1) {
		for _, n := range d.names {
			if c.R.Chance(0.6) {
				d.model[n] = linkEntry(d.nodes[c.R.Intn(len(d.nodes))])
			}
		}
		nd, _ := flawed(c, d.m, cfg.width, cfg.b, d.model)
		var err error
		d.dir, err = uio.NewDirectoryFromNode(d.m, nd)
		c.Must(err, "fromnode")
		d.kind = d.kindNow()
	}
	if c.R.Chance(0.15) { // the undecorated directory types
		if dyn, ok := d.dir.(*uio.DynamicDirectory); ok {
			d.dir = dyn.Directory
		}
	}
	bias := 0.6
	for i := 0; i < nops; i++ {
		if large && i < nops*2/3 {
			bias = 0.95
		} else if c.R.Chance(0.08) {
			bias = pick(c.R, 0.15, 0.3, 0.6, 0.8)
		}
		switch k := c.R.Intn(20); {
		case k < 11:
			d.mutate(bias)
		case k < 15:
			n := c.R.pickStr(d.names)
			if c.R.Chance(0.4) {
				if p := d.present(); p != "" {
					n = p
				}
			}
			d.find(n)
		case k < 18:
			d.list()
		case k == 18 && c.R.Chance(0.3):
			d.setBuilder(pick(c.R, builders...))
		case k == 18:
			d.reload()
			d.checkPrefix()
		default:
			// abandon an enumeration part way, then go on
			ctx, cancel := context.WithCancel(bg)
			ch := d.dir.EnumLinksAsync(ctx)
			for j := c.R.Intn(4); j > 0; j-- {
				<-ch
			}
			cancel()
			for range ch {
			}
			c.Count("abandoned_enumerations", 1)
		}
	}
	for way := 0; way < 3; way++ {
		how, ls, err := listVia(bg, d.dir, way)
		c.Must(err, "list-err:"+how)
		compareListing(c, how+"("+d.kind+")", ls, d.model)
	}
	for _, n := range d.names {
		d.find(n)
	}
	c.Max("max_entries", len(d.model))
	c.Count("operations", nops)
	key := ""
	if len(d.model) > 0 {
		key = string(d.key)
	}
	c.Eval(key)
	c.State("dir_states", fmt.Sprint(cfg, d.kind, len(d.model)))
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

// canonical is the CID the reference encoders give the entries.
func (d *dirDrv) canonical(wantHAMT bool) rNode {
	if wantHAMT {
		return newRefHAMT(d.cfg.width, d.cfg.b).build(d.model)
	}
	return refBasicDir(d.model, d.cfg.b)
}

func (d *dirDrv) wantHAMT() bool {
	if d.cfg.threshold == 0 {
		return d.cfg.hamt
	}
	return d.size() >= d.cfg.threshold
}

func (d *dirDrv) checkCanonical(sig string) {
	c := d.c
	want := d.wantHAMT()
	c.Check((d.kindNow() == "hamt") == want, sig+"-form", "%d entries of total size %d (threshold %d): directory is %s", len(d.model), d.size(), d.cfg.threshold, d.kindNow())
	nd, err := d.dir.GetNode()
	c.Must(err, "getnode")
	ref := d.canonical(want)
	c.Check(nd.Cid().Equals(ref.c), sig, "%d entries (size %d, threshold %d): root %s, canonical %s", len(d.model), d.size(), d.cfg.threshold, nd.Cid(), ref.c)
	c.Count("cid_checks", 1)
}

// runC12Default fills a directory up to the default threshold of 256 KiB at
// the default width and hovers there.
func runC12Default(c *Case) {
	cfg := dirCfg{width: 256, threshold: 256 << 10, b: pick(c.R, builders[:6]...)}
	d := newDirDrv(c, cfg, 10)
	l := c.R.Range(120, 250)
	seq := 0
	add := func(l int) {
		seq++
		nd := d.nodes[c.R.Intn(len(d.nodes))]
		d.add(fmt.Sprintf("%0*d", max(1, l), seq), nd)
	}
	for d.size() < cfg.threshold-2*l-100 {
		add(l)
	}
	d.checkCanonical("canonical")
	for i := c.R.Range(10, 40); i > 0; i-- {
		left := cfg.threshold - d.size()
		switch {
		case c.R.Chance(0.1):
			d.reload()
		case c.R.Chance(0.2) && left > 50 && left < 300: // exactly, or just below or above
			nd := d.nodes[c.R.Intn(len(d.nodes))]
			seq++
			d.add(fmt.Sprintf("%0*d", max(6, left-nd.Cid().ByteLen()+c.R.Range(-1, 1)), seq), nd)
		case left > 0 && c.R.Chance(0.75) || c.R.Chance(0.35):
			add(l)
		default:
			d.remove(d.present())
		}
		d.checkCanonical("canonical")
	}
	c.Count("default_threshold_cases", 1)
	c.Eval(string(d.key))
}

func runC12(c *Case) {
	if c.R.Chance(0.003) {
		runC12Default(c)
		return
	}
	cfg := genDirCfg(c.R)
	if cfg.threshold != 0 {
		cfg.hamt = false
	} else {
		c.Count("disabled_cases", 1)
	}
	d := newDirDrv(c, cfg, c.R.Range(3, 50))
	bias := 0.65
	nops := c.R.Range(10, 80)
	changed := false
	for i := 0; i < nops; i++ {
		// hover around the threshold
		if cfg.threshold > 0 && c.R.Chance(0.5) {
			if d.size() < cfg.threshold {
				bias = 0.75
			} else {
				bias = 0.3
			}
		} else if c.R.Chance(0.1) {
			bias = pick(c.R, 0.2, 0.5, 0.8)
		}
		if c.R.Chance(0.1) {
			// aim exactly at the threshold with a name of the right length
			nd := d.nodes[c.R.Intn(len(d.nodes))]
			l := cfg.threshold - d.size() - nd.Cid().ByteLen()
			if l > 0 && l < 200 && cfg.threshold > 0 {
				n := fmt.Sprintf("%0*d", l, c.R.Intn(10))
				if _, ok := d.model[n]; !ok && len(separable(append(d.modelNames(), n), cfg.width)) == len(d.model)+1 {
					d.add(n, nd)
					c.Count("at_threshold", 1)
				}
			}
		} else if c.R.Chance(0.1) {
			d.reload()
		} else if over := d.size() - cfg.threshold; cfg.threshold > 0 && over >= 0 && c.R.Chance(0.15) && len(d.model) > 0 {
			// two steps, a small growth and a removal, that end just above,
			// at or below the threshold
			p := d.present()
			nd := d.nodes[c.R.Intn(len(d.nodes))]
			l := len(p) + d.model[p].Cid.ByteLen() - over - nd.Cid().ByteLen() + c.R.Range(-1, 1)
			if l > 0 && l < 200 {
				n := fmt.Sprintf("%0*d", l, c.R.Intn(10))
				if _, ok := d.model[n]; !ok && len(separable(append(d.modelNames(), n), cfg.width)) == len(d.model)+1 {
					if c.R.Chance(0.5) {
						d.reload()
					}
					d.add(n, nd)
					d.checkCanonical("canonical")
					d.remove(p)
					c.Count("at_threshold_removals", 1)
					changed = true
				}
			}
		} else {
			before := len(d.model)
			d.mutate(bias)
			if len(d.model) <= before {
				changed = true
			}
		}
		d.checkCanonical("canonical")
	}
	key := ""
	if changed {
		key = string(d.key)
	}
	c.Eval(key)
	c.Count("operations", nops)
	c.State("dir_states", fmt.Sprint(cfg, d.kind, len(d.model)))
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

func (d *dirDrv) modelNames() []string {
	var out []string
	for n := range d.model {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func cloneModel(m map[string]rEntry) map[string]rEntry {
	o := make(map[string]rEntry, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// runC17History applies a long history to one in-memory directory, any step of
// which may fail, and checks it against the entries of the steps that did not.
func runC17History(c *Case) {
	cfg := genDirCfg(c.R)
	if cfg.threshold != 0 {
		cfg.hamt = false
	}
	d := newDirDrv(c, cfg, c.R.Range(4, 40))
	p := pick(c.R, 0.1, 0.3, 0.6)
	fails := 0
	for i := c.R.Range(5, 60); i > 0; i-- {
		if c.R.Chance(0.1) { // start over from the stored node
			nd, err := d.dir.GetNode()
			c.Must(err, "getnode")
			c.Must(d.m.Add(bg, nd), "add")
			fresh, err := d.m.Get(bg, nd.Cid())
			c.Must(err, "reload")
			d.dir, err = uio.NewDirectoryFromNode(d.m, fresh)
			c.Must(err, "fromnode")
			d.key = append(d.key, 'l')
		}
		ctx, cancel := context.WithCancel(bg)
		fired := false
		if c.R.Chance(p) {
			pos, sticky, how := c.R.Intn(pick(c.R, 1, 2, 6, 20)), c.R.Chance(0.4), c.R.Intn(4)
			ferr := genStoreFault(c, c.R)
			k := 0
			d.m.setFault(func(op Op) error {
				k++
				if k-1 < pos || k-1 > pos && !sticky {
					return nil
				}
				fired = true
				switch {
				case how == 0:
					cancel()
					return context.Canceled
				case how == 1 && op.Kind != "add":
					return errMissing
				}
				return ferr
			})
			d.key = append(d.key, byte(pos), byte(how))
		}
		name := c.R.pickStr(d.names)
		if c.R.Chance(0.5) {
			if q := d.present(); q != "" {
				name = q
			}
		}
		e, had := d.model[name]
		nd := d.nodes[c.R.Intn(len(d.nodes))]
		kind := pick(c.R, "AddChild", "AddChild", "RemoveChild", "RemoveChild", "Find")
		var err error
		var got ipld.Node
		after := cloneModel(d.model)
		switch kind {
		case "AddChild":
			after[name] = linkEntry(nd)
			if c.R.Chance(0.1) {
				err = d.dir.AddChild(ctx, name, unsized{nd})
				c.Check(err != nil, "unsized-success", "adding a node that cannot tell its size succeeded")
				c.Count("unsized_entries", 1)
				fired = true
				break
			}
			err = d.dir.AddChild(ctx, name, nd)
		case "RemoveChild":
			err = d.dir.RemoveChild(ctx, name)
			delete(after, name)
		default:
			got, err = d.dir.Find(ctx, name)
		}
		d.m.setFault(nil)
		cancel()
		c.Logf("%s %q present=%v fired=%v -> %v", kind, name, had, fired, err)
		d.key = append(d.key, kind[0], byte(hash64(name)))
		switch {
		case err == nil && kind == "Find":
			c.Check(had && got.Cid().Equals(e.Cid), "find-wrong", "Find %q returned a wrong node", name)
		case err == nil:
			c.Check(had || kind != "RemoveChild", "false-success", "removing the missing name %q succeeded", name)
			d.model = after
		case errors.Is(err, os.ErrNotExist):
			c.Check(!had && kind != "AddChild", "false-notexist:"+kind, "%s %q returned %v", kind, name, err)
		default:
			c.Check(fired, "error-without-fault:"+kind, "%s %q failed without a fault: %v", kind, name, err)
			fails++
			c.Count("failed_"+kind, 1)
		}
		if c.R.Chance(0.15) {
			how, ls, lerr := listVia(bg, d.dir, c.R.Intn(3))
			c.Must(lerr, "list-after-fault")
			compareListing(c, how+" after "+kind, ls, d.model)
		}
		if c.R.Chance(0.15) {
			d.checkCanonical("cid-after-op")
		}
		d.noteKind()
	}
	how, ls, lerr := listVia(bg, d.dir, c.R.Intn(3))
	c.Must(lerr, "list-after-fault")
	compareListing(c, how+" at the end", ls, d.model)
	d.checkCanonical("cid-after-op")
	c.Count("fault_histories", 1)
	key := ""
	if fails > 0 {
		key = string(d.key)
	}
	c.Eval(key)
}

// runC17Foreign works on a sharded directory one of whose sub-shards is
// something else.
func runC17Foreign(c *Case) {
	cfg := genDirCfg(c.R)
	cfg.threshold, cfg.hamt = 0, true
	d := newDirDrv(c, cfg, c.R.Range(4, 60))
	for i := c.R.Range(5, 60); i > 0; i-- {
		d.mutate(0.9)
	}
	root, err := d.dir.GetNode()
	c.Must(err, "getnode")
	c.Must(d.m.Add(bg, root), "add")
	ref := newRefHAMT(cfg.width, cfg.b)
	var subs []string
	for k := range ref.blocks(d.model) {
		if k != string(root.Cid().Hash()) {
			subs = append(subs, k)
		}
	}
	if len(subs) == 0 {
		c.Eval("")
		return
	}
	sort.Strings(subs)
	victim := subs[c.R.Intn(len(subs))]
	foreign := genForeign(c, d.m)
	bad, err := d.m.rewire(root.Cid(), victim, foreign)
	c.Must(err, "rewire")
	open := func() uio.Directory {
		nd, err := d.m.get(bad)
		c.Must(err, "get")
		dir, err := uio.NewDirectoryFromNode(d.m, nd)
		c.Must(err, "fromnode")
		return dir
	}
	c.Logf("%s: sub-shard replaced by %s", cfg, foreign)
	// which entries are below it? the ones whose lookup needs the block
	for _, name := range c.R.Perm(len(d.names)) {
		name := d.names[name]
		e, had := d.model[name]
		needs := false
		d.m.setFault(func(op Op) error {
			if op.Kind != "add" && op.Cid.Equals(foreign) {
				needs = true
			}
			return nil
		})
		dir := open()
		kind := pick(c.R, "AddChild", "RemoveChild", "Find", "Find")
		nd := d.nodes[c.R.Intn(len(d.nodes))]
		var got ipld.Node
		switch kind {
		case "AddChild":
			err = dir.AddChild(bg, name, nd)
		case "RemoveChild":
			err = dir.RemoveChild(bg, name)
		default:
			got, err = dir.Find(bg, name)
		}
		d.m.setFault(nil)
		if !needs {
			switch {
			case kind == "Find" && had && e.Cid.Equals(foreign):
			case kind == "AddChild":
				c.Must(err, "foreign-elsewhere:"+kind)
			case had:
				c.Must(err, "foreign-elsewhere:"+kind)
				c.Check(got == nil || got.Cid().Equals(e.Cid), "find-wrong", "Find %q returned a wrong node", name)
			default:
				c.Check(errors.Is(err, os.ErrNotExist), "foreign-elsewhere:"+kind, "%s of the missing name %q: %v", kind, name, err)
			}
			continue
		}
		if kind == "Find" && err == nil && had && e.Cid.Equals(foreign) {
			continue // the entry itself is that block
		}
		c.Check(err != nil, "foreign-success:"+kind, "%s %q through a link to something that is not a shard succeeded", kind, name)
		c.Check(!errors.Is(err, os.ErrNotExist), "false-notexist:"+kind, "%s %q through a link to something that is not a shard: %v", kind, name, err)
		n2, err := dir.GetNode()
		c.Must(err, "getnode")
		c.Check(n2.Cid().Equals(bad), "changed-by-failure:"+kind, "a failed %s %q changed the directory", kind, name)
		c.Count("foreign_subshards", 1)
		c.Eval(fmt.Sprintf("%s|%s|%s", bad, kind, name))
	}
}

func runC17(c *Case) {
	switch c.R.Intn(10) {
	case 0, 1:
		runC17History(c)
		return
	case 2:
		runC17Foreign(c)
		return
	}
	cfg := genDirCfg(c.R)
	if cfg.threshold != 0 {
		cfg.hamt = false
	}
	d := newDirDrv(c, cfg, c.R.Range(4, 40))
	for i := c.R.Range(2, 40); i > 0; i-- {
		d.mutate(0.8)
	}
	if cfg.threshold > 0 && c.R.Chance(0.7) {
		// end up close to the threshold, on either side
		for i := 0; i < 60; i++ {
			s := d.size()
			if s < cfg.threshold-90 {
				d.add(c.R.pickStr(d.names), d.nodes[c.R.Intn(len(d.nodes))])
			} else if s > cfg.threshold+90 {
				d.remove(d.present())
			} else {
				break
			}
		}
	}
	root, err := d.dir.GetNode()
	c.Must(err, "getnode")
	c.Must(d.m.Add(bg, root), "add")
	base := cloneModel(d.model)
	// the operation
	kind := pick(c.R, "AddChild", "AddChild", "RemoveChild", "RemoveChild", "Find")
	name := c.R.pickStr(d.names)
	if kind != "AddChild" && c.R.Chance(0.85) || c.R.Chance(0.3) {
		if p := d.present(); p != "" {
			name = p
		}
	}
	nd := d.nodes[c.R.Intn(len(d.nodes))]
	e, had := base[name]
	warm := c.R.Chance(0.3) // part of the trie is loaded before
	warmName := c.R.pickStr(d.names)
	c.Logf("operation %s %q, present=%v, %d entries", kind, name, had, len(base))
	after := cloneModel(base)
	switch kind {
	case "AddChild":
		after[name] = linkEntry(nd)
	case "RemoveChild":
		delete(after, name)
	}
	run := func(ctx context.Context, dir uio.Directory) (ipld.Node, error) {
		switch kind {
		case "AddChild":
			return nil, dir.AddChild(ctx, name, nd)
		case "RemoveChild":
			return nil, dir.RemoveChild(ctx, name)
		}
		return dir.Find(ctx, name)
	}
	fires := 0
	limit := 40
	if c.Thor {
		limit = 200
	}
	cold := 0
	for pos := 0; pos < limit; pos++ {
		cancelled := c.R.Chance(0.3)
		missing := c.R.Chance(0.3)
		fresh, err := d.m.Get(bg, root.Cid())
		c.Must(err, "reload")
		dir, err := uio.NewDirectoryFromNode(d.m, fresh)
		c.Must(err, "fromnode")
		d.dir = dir
		kindBefore := d.kindNow()
		if warm {
			dir.Find(bg, warmName)
		}
		ctx, cancel := context.WithCancel(bg)
		fired := false
		k := 0
		ferr := genStoreFault(c, c.R)
		d.m.setFault(func(op Op) error {
			k++
			if k-1 != pos {
				return nil
			}
			fired = true
			if cancelled {
				cancel()
				return context.Canceled
			}
			if missing && op.Kind != "add" {
				return errMissing
			}
			return ferr
		})
		got, err := run(ctx, dir)
		d.m.setFault(nil)
		cancel()
		c.Logf("fault at %d (cancel=%v missing=%v, %v) fired=%v -> %v", pos, cancelled, missing, ferr, fired, err)
		d.model = base
		if err == nil || errors.Is(err, os.ErrNotExist) {
			// success (or "no such entry") must be the truth, whatever failed
			switch {
			case err != nil:
				c.Check(!had && kind != "AddChild", "false-notexist:"+kind, "%s %q with a failing store returned %v", kind, name, err)
			case kind == "Find":
				c.Check(had && got.Cid().Equals(e.Cid), "find-wrong", "Find with a failing store returned a wrong node")
			case kind == "RemoveChild":
				c.Check(had, "false-success", "removing a missing name succeeded")
				d.model = after
			default:
				d.model = after
			}
		} else {
			c.Check(fired, "error-without-fault:"+kind, "%s %q failed without a fault: %v", kind, name, err)
			c.Count("failed_"+kind, 1)
			if cancelled {
				c.Count("cancelled_ops", 1)
			}
		}
		// the entries are what they were (or what they became)
		how, ls, lerr := listVia(bg, dir, c.R.Intn(3))
		c.Must(lerr, "list-after-fault")
		compareListing(c, how+" after "+kind, ls, d.model)
		failed := err != nil && !errors.Is(err, os.ErrNotExist)
		if failed {
			// a failed operation does not even change the form
			c.Check(d.kindNow() == kindBefore, "form-changed:"+kind, "a failed %s turned the directory from %s into %s", kind, kindBefore, d.kindNow())
			d.checkCanonical("cid-after-fault")
			if !c.R.Chance(0.5) {
				// same operation again on the same directory
				got, err := run(bg, dir)
				switch {
				case kind == "AddChild" || kind == "RemoveChild" && had:
					c.Must(err, "retry:"+kind)
					d.model = after
				case had:
					c.Must(err, "retry:"+kind)
					c.Check(got.Cid().Equals(e.Cid), "retry-find", "retried lookup returned a wrong node")
				default:
					c.Check(errors.Is(err, os.ErrNotExist), "retry-missing", "retried %s of a missing name: %v", kind, err)
				}
				c.Count("retries_ok", 1)
			}
		}
		d.checkCanonical("cid-after-op")
		if d.kindNow() != kindBefore {
			c.Count("switching_ops", 1)
		}
		if fired {
			fires++
			c.Eval(fmt.Sprintf("%s|%s|%s|%d|%v|%v", root.Cid(), kind, name, pos, cancelled, missing))
			cold = 0
		} else {
			cold++
			if cold > 1 {
				break
			}
		}
	}
	c.Count("faults_fired", fires)
	c.Count("operations", 1)
	if fires == 0 {
		c.Eval("")
	}
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

var _ = cid.Undef
