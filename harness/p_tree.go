package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	register(&Prop{
		ID: "C23", Level: "fault_enumeration", Quick: 4000, Thorough: 120000,
		Rule:        "a case stores a generated tree (files of every layout, symlinks, nested basic and sharded directories), walks it through the file-tree view comparing every name, kind, byte, size and target, then walks again with missing blocks, failing fetches and cancellation at enumerated positions; non-trivial = a tree with at least two entries, keyed by root and fault",
		Assumptions: []string{"non-empty entry names"},
		Required:    []string{"files", "symlinks", "basic_dirs", "sharded_dirs", "seek_checks", "failed_walks", "cancelled_walks", "cancelled_between", "wide_dirs", "missing_walks", "faulty_complete"},
		Leak:        true,
		Run:         runC23,
	})
	register(&Prop{
		ID: "C24", Quick: 80000, Thorough: 1500000,
		Rule:        "a case builds one node (basic or sharded directory with crafted hash collisions, plain node, file, raw node), resolves 5..40 generated paths one hop each and compares with the model, with store-write and node-change monitors; non-trivial = a directory with entries, keyed by node and paths",
		Assumptions: []string{"the name field of a link resolved in a sharded directory is not specified"},
		Required:    []string{"found", "not_found", "sharded", "basic", "plain", "prefix_names", "faulted", "empty_paths", "sparse"},
		Run:         runC24,
	})
}

// tnode is the model of one node of a file tree.
type tnode struct {
	kind   string // "file", "symlink", "dir"
	data   []byte
	target string
	kids   map[string]*tnode
	shard  bool
	nd     ipld.Node
}

// cumulativeSize is the size of a node and, by its links, all below it.
func cumulativeSize(raw []byte) (int64, error) {
	links, _, err := parseDagPB(raw)
	n := int64(len(raw))
	for _, l := range links {
		n += int64(l.Tsize)
	}
	return n, err
}

func (t *tnode) count() int {
	n := 1
	for _, k := range t.kids {
		n += k.count()
	}
	return n
}

// genTree stores a random tree; small keeps directories short.
func genTree(c *Case, m *memDAG, depth int, maxKids int) *tnode {
	r := c.R
	b := pick(r, builders...)
	k := r.Intn(10)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch {
	case k < 4:
		nd, data, _ := startFile(c, m, b)
		return &tnode{kind: "file", data: data, nd: nd}
	case k < 6:
		t := pick(r, "", "a", "../x", "/abs/path", strings.Repeat("long/", r.Intn(40)), "é\x00", "name with space")
		d, err := ft.SymlinkData(t)
		c.Must(err, "symlink")
		nd := mdag.NodeWithData(d)
		nd.SetCidBuilder(b.b)
		c.Must(m.Add(bg, nd), "add")
		return &tnode{kind: "symlink", target: t, nd: nd}
	}
	return genDirTree(c, m, depth, maxKids)
}

func genDirTree(c *Case, m *memDAG, depth, maxKids int) *tnode {
	r := c.R
	b := pick(r, builders...)
	t := &tnode{kind: "dir", kids: map[string]*tnode{}, shard: r.Chance(0.5)}
	width := pick(r, 8, 8, 16, 64, 256)
	count := -maxKids
	if maxKids > 0 {
		count = r.Range(1, maxKids)
	}
	names := separable(genNames(r, count, width, false), width)
	if maxKids > 0 && r.Chance(0.1) {
		names = nil
	}
	if !t.shard && r.Chance(0.05) {
		names = append(names, "")
		c.Count("empty_names", 1)
	}
	model := map[string]rEntry{}
	for _, n := range names {
		var kid *tnode
		if len(t.kids) > 4 && (r.Chance(0.6) || maxKids < 0) { // cheap repeats
			for _, k := range names {
				if t.kids[k] != nil {
					kid = t.kids[k]
					break
				}
			}
		}
		if kid == nil {
			kid = genTree(c, m, depth-1, maxKids/2+1)
		}
		t.kids[n] = kid
		model[n] = linkEntry(kid.nd)
	}
	var err error
	if t.shard {
		s, err := hamt.NewShard(m, width)
		c.Must(err, "newshard")
		s.SetCidBuilder(b.b)
		for _, n := range names {
			c.Must(s.Set(bg, n, t.kids[n].nd), "set")
		}
		t.nd, err = s.Node()
		c.Must(err, "node")
	} else {
		nd := ft.EmptyDirNode()
		nd.SetCidBuilder(b.b)
		for _, n := range names {
			c.Must(nd.AddNodeLink(n, t.kids[n].nd), "link")
		}
		t.nd = nd
		c.Must(m.Add(bg, nd), "add")
	}
	c.Must(err, "dir")
	return t
}

var errWalk = errors.New("zverif: walk")

type walkErr struct{ err error } // an error the API reported

func (w walkErr) Error() string { return "reported: " + w.err.Error() }

type walkBad struct{ sig, msg string } // a wrong result

func (w walkBad) Error() string { return w.sig + ": " + w.msg }

type walkStat struct {
	files, symlinks, basic, sharded, seeks, entries int

	onEntry func(n int) // called before the n-th step of an iterator
}

// walkTree compares what the file-tree view shows with the model. It returns
// walkErr when the view reported an error, walkBad when it was wrong.
func walkTree(r *Rng, nd files.Node, t *tnode, path string, st *walkStat, yield bool) error {
	bad := func(sig, f string, a ...interface{}) error {
		return walkBad{sig, path + ": " + fmt.Sprintf(f, a...)}
	}
	defer nd.Close()
	switch t.kind {
	case "symlink":
		l := files.ToSymlink(nd)
		if l == nil {
			return bad("kind", "a symlink is shown as %T", nd)
		}
		if l.Target != t.target {
			return bad("target", "target %q, want %q", l.Target, t.target)
		}
		st.symlinks++
		return nil
	case "file":
		f, ok := nd.(files.File)
		if !ok || files.ToSymlink(nd) != nil {
			return bad("kind", "a file is shown as %T", nd)
		}
		sz, err := f.Size()
		if err != nil {
			return walkErr{err}
		}
		if sz != int64(len(t.data)) {
			return bad("size", "size %d, want %d", sz, len(t.data))
		}
		var got bytes.Buffer
		buf := make([]byte, r.Range(1, 600))
		for {
			n, err := f.Read(buf)
			got.Write(buf[:n])
			if err == io.EOF {
				break
			}
			if err != nil {
				if !bytes.HasPrefix(t.data, got.Bytes()) {
					return bad("bytes", "wrong bytes before an error: %s", diffBytes(got.Bytes(), t.data))
				}
				return walkErr{err}
			}
		}
		if !bytes.Equal(got.Bytes(), t.data) {
			return bad("bytes", "%s", diffBytes(got.Bytes(), t.data))
		}
		if len(t.data) > 0 && r.Chance(0.5) {
			off := r.Intn(len(t.data))
			p, err := f.Seek(int64(off), io.SeekStart)
			if err != nil {
				return walkErr{err}
			}
			if p != int64(off) {
				return bad("seek", "seek to %d gives %d", off, p)
			}
			n, err := 0, error(nil)
			for n < len(buf) && err == nil {
				var k int
				k, err = f.Read(buf[n:])
				n += k
			}
			if err != nil && err != io.EOF {
				return walkErr{err}
			}
			want := t.data[off:]
			if len(want) > len(buf) {
				want = want[:len(buf)]
			}
			if !bytes.Equal(buf[:n], want) {
				return bad("seek-bytes", "after a seek to %d: %s", off, diffBytes(buf[:n], want))
			}
			st.seeks++
		}
		st.files++
		return nil
	}
	d, ok := nd.(files.Directory)
	if !ok {
		return bad("kind", "a directory is shown as %T", nd)
	}
	if t.shard {
		st.sharded++
	} else {
		st.basic++
	}
	sz, err := d.Size()
	if err != nil {
		return walkErr{err}
	}
	if want, err := cumulativeSize(t.nd.RawData()); err == nil && sz != want {
		return bad("dir-size", "directory of size %d, its node and links say %d", sz, want)
	}
	it := d.Entries()
	seen := map[string]bool{}
	var inner error
	next := func() bool {
		if st.onEntry != nil {
			st.onEntry(st.entries)
		}
		return it.Next()
	}
	for next() {
		if err := it.Err(); err != nil {
			return bad("err-after-next", "Next is true but Err is %v", err)
		}
		n := it.Name()
		kid := t.kids[n]
		if kid == nil {
			return bad("extra", "shows the entry %q, which does not exist", n)
		}
		if seen[n] {
			return bad("dup", "shows %q twice", n)
		}
		seen[n] = true
		st.entries++
		if yield {
			runtime.Gosched()
		}
		err := walkTree(r, it.Node(), kid, path+"/"+n, st, yield)
		if _, ok := err.(walkBad); ok {
			return err
		}
		if err != nil {
			inner = err // go on listing: this one entry reported its error
		}
	}
	if err := it.Err(); err != nil {
		for i := 0; i < 3; i++ {
			if it.Next() {
				return bad("next-after-error", "Next is true after the error %v", err)
			}
			if it.Err() == nil {
				return bad("error-lost", "the error %v is gone after another Next", err)
			}
		}
		return walkErr{err}
	}
	for i := 0; i < 2; i++ {
		if it.Next() {
			return bad("next-after-end", "Next is true after the end")
		}
		if err := it.Err(); err != nil {
			return bad("error-after-end", "an error appears after the end: %v", err)
		}
	}
	if len(seen) != len(t.kids) {
		return bad("short", "the listing ended without an error after %d of %d entries", len(seen), len(t.kids))
	}
	return inner
}

// cidsBelow lists the blocks of a tree except the root.
func cidsBelow(m *memDAG, root cid.Cid) []cid.Cid {
	seen := map[string]bool{root.KeyString(): true}
	var out []cid.Cid
	var walk func(c cid.Cid)
	walk = func(c cid.Cid) {
		nd, err := m.get(c)
		if err != nil {
			return
		}
		for _, l := range nd.Links() {
			if !seen[l.Cid.KeyString()] {
				seen[l.Cid.KeyString()] = true
				out = append(out, l.Cid)
				walk(l.Cid)
			}
		}
	}
	walk(root)
	return out
}

func runC23(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	var t *tnode
	if r.Chance(0.02) { // longer than the iterator's look-ahead
		t = genDirTree(c, m, 0, -r.Range(101, 300))
		c.Count("wide_dirs", 1)
	} else if r.Chance(0.9) {
		t = genDirTree(c, m, r.Range(0, 3), r.Range(1, 25))
	} else {
		t = genTree(c, m, 1, 5)
	}
	root := t.nd.Cid()
	c.Logf("tree of %d nodes, root %s (%s)", t.count(), root, t.kind)
	c.Max("max_tree_nodes", t.count())
	open := func(ctx context.Context) files.Node {
		nd, err := m.get(root)
		c.Must(err, "get")
		f, err := unixfile.NewUnixfsFile(ctx, m, nd)
		c.Must(err, "open")
		return f
	}
	m.resetLog()
	var st walkStat
	ctx, cancel := context.WithCancel(bg)
	err := walkTree(r, open(ctx), t, "", &st, false)
	if b, ok := err.(walkBad); ok {
		c.Fail(b.sig, "%s", b.msg)
	}
	c.Must(err, "walk")
	// one opened view can be walked again
	if r.Chance(0.2) {
		f := open(ctx)
		for i := 0; i < 2; i++ {
			var s2 walkStat
			if err := walkTree(r, f, t, "", &s2, false); t.kind == "dir" && err != nil {
				c.Fail("rewalk", "walk %d over one view: %v", i, err)
			}
		}
	}
	cancel()
	c.Count("files", st.files)
	c.Count("symlinks", st.symlinks)
	c.Count("basic_dirs", st.basic)
	c.Count("sharded_dirs", st.sharded)
	c.Count("seek_checks", st.seeks)
	c.Count("entries", st.entries)
	key := ""
	if st.entries >= 2 {
		key = root.KeyString()
	}
	c.Eval(key)
	// with faults
	total := m.ops()
	below := cidsBelow(m, root)
	rounds := 5
	if c.Thor {
		rounds = 12
	}
	for i := 0; i < rounds && len(below) > 0; i++ {
		kind := pick(r, "missing", "missing", "fail", "cancel", "walkcancel")
		pos := r.Intn(total + 1)
		victim := below[r.Intn(len(below))]
		ctx, cancel := context.WithCancel(bg)
		k := 0
		fired := false
		var mu sync.Mutex
		ferr := genStoreFault(c, r)
		m.setFault(func(op Op) error {
			mu.Lock()
			defer mu.Unlock()
			k++
			switch kind {
			case "missing":
				if string(op.Cid.Hash()) == string(victim.Hash()) {
					fired = true
					return errMissing
				}
			case "fail":
				if k-1 == pos {
					fired = true
					return ferr
				}
			case "cancel":
				if k-1 == pos {
					fired = true
					cancel()
					return context.Canceled
				}
			}
			return nil
		})
		var st walkStat
		if kind == "walkcancel" { // cancelled between two steps of the walk
			pos = r.Intn(t.count() + 1)
			st.onEntry = func(n int) {
				if n == pos && !fired {
					mu.Lock()
					fired = true
					mu.Unlock()
					if r.Chance(0.5) { // let the listing run ahead
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
					cancel()
				}
			}
		}
		err := walkTree(r, open(ctx), t, "", &st, false)
		m.setFault(nil)
		cancel()
		c.Logf("%s fault (position %d) fired=%v -> %v", kind, pos, fired, err)
		if b, ok := err.(walkBad); ok {
			c.Fail(b.sig+":faulty", "with a %s fault: %s", kind, b.msg)
		}
		if err != nil {
			c.Check(fired, "error-without-fault", "the walk failed without a fault: %v", err)
			c.Count("failed_walks", 1)
			switch kind {
			case "cancel":
				c.Count("cancelled_walks", 1)
			case "walkcancel":
				c.Count("cancelled_between", 1)
			case "missing":
				c.Count("missing_walks", 1)
			}
		} else if fired {
			c.Count("faulty_complete", 1) // e.g. a failed read-ahead, tried again
		}
		if fired {
			c.Eval(fmt.Sprintf("%s|%s|%d|%s", root, kind, pos, victim))
		}
	}
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

// getterOnly hides everything but fetching and records misuse.
type getterOnly struct{ m *memDAG }

func (g getterOnly) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) { return g.m.Get(ctx, c) }
func (g getterOnly) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	return g.m.GetMany(ctx, cs)
}

func runC24(c *Case) {
	r := c.R
	m := newMemDAG()
	m.shuffle = newRng(c.Seed + 1)
	nodes := genEntryNodes(c, m, 5)
	model := map[string]rEntry{}
	b := pick(r, builders...)
	width := pick(r, widths...)
	kind := pick(r, "sharded", "sharded", "sharded", "basic", "basic", "plain", "raw", "file")
	names := separable(genNames(r, r.Range(1, 60), width, false), width)
	if r.Chance(0.2) {
		// names that look like the internal ones
		pad := len(fmt.Sprintf("%X", width-1))
		for i := 0; i < 5; i++ {
			names = append(names, fmt.Sprintf("%0*X", pad, r.Intn(width))+pick(r, "", names[0]))
		}
		names = separable(names, width)
	}
	var held []string
	for _, n := range names {
		if r.Chance(0.7) {
			model[n] = linkEntry(nodes[r.Intn(len(nodes))])
			held = append(held, n)
		}
	}
	byCid := map[string]ipld.Node{}
	for _, nd := range nodes {
		byCid[nd.Cid().KeyString()] = nd
	}
	var nd ipld.Node
	var err error
	switch kind {
	case "sharded":
		s, err := hamt.NewShard(m, width)
		c.Must(err, "newshard")
		s.SetCidBuilder(b.b)
		for _, n := range held {
			c.Must(s.Set(bg, n, byCid[model[n].Cid.KeyString()]), "set")
		}
		nd, err = s.Node()
		c.Must(err, "node")
	case "basic", "plain":
		var pn *mdag.ProtoNode
		if kind == "basic" {
			pn = ft.EmptyDirNode()
		} else {
			pn = mdag.NodeWithData(pick(r, nil, []byte("not unixfs"), []byte{0x08}, []byte{0xff, 0xff}))
		}
		pn.SetCidBuilder(b.b)
		for _, n := range held {
			c.Must(pn.AddNodeLink(n, byCid[model[n].Cid.KeyString()]), "link")
		}
		nd = pn
	case "raw":
		nd = mdag.NewRawNode(r.Bytes(30))
		model = map[string]rEntry{}
	case "file":
		s := genImp(r)
		nd, err = s.importBytes(m, r.Bytes(s.genLen(r, 40)))
		c.Must(err, "import")
		model = map[string]rEntry{}
		if len(nd.Links()) > 0 { // a file's links are all named ""
			l := nd.Links()[0]
			model[""] = rEntry{l.Cid, l.Size}
		}
	}
	c.Must(m.Add(bg, nd), "add")
	c.Count(kind, 1)
	if r.Chance(0.7) {
		nd, err = m.get(nd.Cid())
		c.Must(err, "get")
	}
	k := &keeper{c: c}
	k.node("resolved node", nd)
	c.Logf("%s width=%d entries=%d", kind, width, len(model))
	var dir uio.Directory
	if kind == "sharded" || kind == "basic" {
		dir, err = uio.NewDirectoryFromNode(m, nd)
		c.Must(err, "fromnode")
	}
	var ds ipld.NodeGetter = getterOnly{m}
	if r.Chance(0.3) {
		ds = m
	}
	n := r.Range(5, 40)
	key := fmt.Sprint(kind, nd.Cid())
	m.resetLog()
	for i := 0; i < n; i++ {
		var name string
		switch q := r.Intn(10); {
		case q < 5 && len(held) > 0:
			name = r.pickStr(held)
		case q < 7:
			name = r.pickStr(names)
		case q == 7 && len(names) > 0: // internal-looking names
			pad := len(fmt.Sprintf("%X", width-1))
			sh := newRefHAMT(width, b)
			x := r.pickStr(names)
			s, _ := sh.slot(refMurmur64([]byte(x)), r.Intn(3))
			name = fmt.Sprintf("%0*X", pad, s) + pick(r, "", x)
			c.Count("prefix_names", 1)
		case q == 8:
			name = ""
		default:
			name = nameWithHash(r.Uint64(), r.Uint64())
		}
		path := []string{name}
		for j := r.Intn(4); j > 0; j-- {
			path = append(path, pick(r, "", "x", "more", name))
		}
		if r.Chance(0.04) {
			path = nil
		}
		orig := append([]string(nil), path...)
		ctx, cancel := context.WithCancel(bg)
		fired := false
		mode := "ok"
		if r.Chance(0.25) {
			mode = pick(r, "fail", "missing", "cancel")
			pos := r.Intn(5)
			q := 0
			ferr := genStoreFault(c, r)
			m.setFault(func(op Op) error {
				q++
				if q-1 != pos {
					return nil
				}
				fired = true
				if mode == "cancel" {
					cancel()
					return context.Canceled
				}
				if mode == "missing" {
					return errMissing
				}
				return ferr
			})
		} else if kind == "sharded" && r.Chance(0.3) {
			// Nothing is left of the directory but the shards on the way to the name.
			onPath, _ := shardPath(m, nd.Cid(), width, name)
			c.Count("sparse", 1)
			m.setFault(func(op Op) error {
				if onPath[string(op.Cid.Hash())] {
					return nil
				}
				return errMissing
			})
		}
		l, rest, err := uio.ResolveUnixfsOnce(ctx, ds, nd, path)
		m.setFault(nil)
		cancel()
		key += strings.Join(orig, "/")
		if len(path) == 0 {
			c.Check(err != nil, "empty-path", "resolving an empty path gives %v", l)
			c.Count("empty_paths", 1)
			continue
		}
		e, ok := model[name]
		switch {
		case err != nil && fired:
			c.Count("faulted", 1)
		case !ok:
			c.Check(err != nil, "extra:"+kind, "resolving %q, which is not an entry, gives %v", name, l)
			c.Count("not_found", 1)
		default:
			c.Must(err, "resolve:"+kind)
			c.Check(l.Cid.Equals(e.Cid) && l.Size == e.Tsize, "wrong:"+kind, "resolving %q gives %s (%d), want %s (%d)", name, l.Cid, l.Size, e.Cid, e.Tsize)
			c.Check(len(rest) == len(orig)-1, "rest:"+kind, "resolving one of %d segments leaves %d", len(orig), len(rest))
			for j := range rest {
				c.Check(rest[j] == orig[j+1], "rest:"+kind, "remaining segment %d is %q, want %q", j, rest[j], orig[j+1])
			}
			c.Count("found", 1)
			if r.Chance(0.2) { // a caller may do what it likes with its link
				l.Name, l.Size = "scribbled", 1
			}
		}
		for j := range path {
			c.Check(path[j] == orig[j], "path-changed", "the caller's path was changed")
		}
		if dir != nil && name != "" && r.Chance(0.3) {
			x, err2 := dir.Find(bg, name)
			if ok {
				c.Must(err2, "find")
				c.Check(x.Cid().Equals(e.Cid), "find-wrong", "Find disagrees")
			} else {
				c.Check(errors.Is(err2, os.ErrNotExist), "find-missing", "Find of a missing name: %v", err2)
			}
		}
	}
	_, adds, _ := m.stat()
	c.Check(adds == 0, "wrote", "resolving wrote %d blocks to the store", adds)
	k.check("")
	if len(model) == 0 {
		key = ""
	}
	c.Eval(key)
	c.Count("operations", n)
	c.Sample(head(fmt.Sprint(c.trace), 400))
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
