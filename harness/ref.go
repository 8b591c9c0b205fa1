package main

// Independent reference implementation of the formats: dag-pb and unixfs
// encodings, both file layouts, the basic directory and the HAMT. Nothing
// here uses the code under test.

import (
	"errors"
	"fmt"
	"math/bits"
	"sort"

	cid "github.com/ipfs/go-cid"
	mh "github.com/multiformats/go-multihash"
)

func putUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func pbVar(b []byte, field int, v uint64) []byte {
	b = putUvarint(b, uint64(field)<<3)
	return putUvarint(b, v)
}
func pbLen(b []byte, field int, d []byte) []byte {
	b = putUvarint(b, uint64(field)<<3|2)
	b = putUvarint(b, uint64(len(d)))
	return append(b, d...)
}

const (
	uRaw = iota
	uDirectory
	uFile
	uMetadata
	uSymlink
	uHAMT
)

// uMsg is a unixfs Data message; nil pointers/slices are absent fields.
type uMsg struct {
	Type       uint64
	Data       []byte
	Filesize   *uint64
	Blocksizes []uint64
	HashType   *uint64
	Fanout     *uint64
}

func u64(v uint64) *uint64 { return &v }

func (m *uMsg) encode() []byte {
	b := pbVar(nil, 1, m.Type)
	if m.Data != nil {
		b = pbLen(b, 2, m.Data)
	}
	if m.Filesize != nil {
		b = pbVar(b, 3, *m.Filesize)
	}
	for _, s := range m.Blocksizes {
		b = pbVar(b, 4, s)
	}
	if m.HashType != nil {
		b = pbVar(b, 5, *m.HashType)
	}
	if m.Fanout != nil {
		b = pbVar(b, 6, *m.Fanout)
	}
	return b
}

type pbField struct {
	num int
	wt  int
	v   uint64
	d   []byte
}

var errPB = errors.New("malformed protobuf")

func parsePB(b []byte) (out []pbField, err error) {
	uv := func() (uint64, bool) {
		var v uint64
		for i := 0; i < 10; i++ {
			if i >= len(b) {
				return 0, false
			}
			v |= uint64(b[i]&0x7f) << (7 * uint(i))
			if b[i] < 0x80 {
				b = b[i+1:]
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		k, ok := uv()
		if !ok || k>>3 == 0 {
			return nil, errPB
		}
		f := pbField{num: int(k >> 3), wt: int(k & 7)}
		switch f.wt {
		case 0:
			if f.v, ok = uv(); !ok {
				return nil, errPB
			}
		case 2:
			n, ok := uv()
			if !ok || n > uint64(len(b)) {
				return nil, errPB
			}
			f.d = b[:n]
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, errPB
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return nil, errPB
			}
			b = b[4:]
		default:
			return nil, errPB
		}
		out = append(out, f)
	}
	return out, nil
}

func parseUMsg(b []byte) (*uMsg, error) {
	fs, err := parsePB(b)
	if err != nil {
		return nil, err
	}
	m, hasType := &uMsg{}, false
	for _, f := range fs {
		f := f
		switch {
		case f.num == 1 && f.wt == 0:
			m.Type, hasType = f.v, true
		case f.num == 2 && f.wt == 2:
			m.Data = append([]byte{}, f.d...)
		case f.num == 3 && f.wt == 0:
			m.Filesize = u64(f.v)
		case f.num == 4 && f.wt == 0:
			m.Blocksizes = append(m.Blocksizes, f.v)
		case f.num == 5 && f.wt == 0:
			m.HashType = u64(f.v)
		case f.num == 6 && f.wt == 0:
			m.Fanout = u64(f.v)
		}
	}
	if !hasType {
		return nil, errPB
	}
	return m, nil
}

type rLink struct {
	Name  string
	Cid   cid.Cid
	Tsize uint64
}

// encDagPB is the canonical dag-pb encoding: links (stable-sorted by name)
// before data.
func encDagPB(links []rLink, data []byte) []byte {
	ls := append([]rLink(nil), links...)
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
	var b []byte
	for _, l := range ls {
		var e []byte
		e = pbLen(e, 1, l.Cid.Bytes())
		e = pbLen(e, 2, []byte(l.Name))
		e = pbVar(e, 3, l.Tsize)
		b = pbLen(b, 2, e)
	}
	if len(data) > 0 {
		b = pbLen(b, 1, data)
	}
	return b
}

func parseDagPB(b []byte) (links []rLink, data []byte, err error) {
	fs, err := parsePB(b)
	if err != nil {
		return nil, nil, err
	}
	for _, f := range fs {
		switch {
		case f.num == 1 && f.wt == 2:
			data = f.d
		case f.num == 2 && f.wt == 2:
			lf, err := parsePB(f.d)
			if err != nil {
				return nil, nil, err
			}
			var l rLink
			for _, g := range lf {
				switch {
				case g.num == 1 && g.wt == 2:
					_, c, err := cid.CidFromBytes(g.d)
					if err != nil {
						return nil, nil, err
					}
					l.Cid = c
				case g.num == 2 && g.wt == 2:
					l.Name = string(g.d)
				case g.num == 3 && g.wt == 0:
					l.Tsize = g.v
				}
			}
			links = append(links, l)
		default:
			return nil, nil, errPB
		}
	}
	return links, data, nil
}

// bspec names a CID builder. The zero value is the default (nil builder).
type bspec struct {
	name string
	b    cid.Builder
}

func (s bspec) pb(raw []byte) cid.Cid {
	var b cid.Builder = cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
	if s.b != nil {
		b = s.b.WithCodec(cid.DagProtobuf)
	}
	c, err := b.Sum(raw)
	if err != nil {
		panic("zverif: " + err.Error())
	}
	return c
}

func (s bspec) raw(raw []byte) cid.Cid {
	var b cid.Builder = cid.Prefix{Version: 1, Codec: cid.Raw, MhType: mh.SHA2_256, MhLength: -1}
	if s.b != nil {
		b = s.b.WithCodec(cid.Raw)
	}
	c, err := b.Sum(raw)
	if err != nil {
		panic("zverif: " + err.Error())
	}
	return c
}

// rNode is a node built by the reference.
type rNode struct {
	c     cid.Cid
	raw   []byte
	tsize uint64
	fsize uint64
}

// refImporter builds the specified DAG of a chunk sequence.
type refImporter struct {
	chunks   [][]byte
	maxlinks int
	rawLeaf  bool
	b        bspec
	store    map[string][]byte
	depth    int // deepest level produced
}

func (ri *refImporter) leaf(d []byte, typ uint64) rNode {
	if ri.rawLeaf {
		n := rNode{c: ri.b.raw(d), raw: d, tsize: uint64(len(d)), fsize: uint64(len(d))}
		ri.put(n)
		return n
	}
	raw := encDagPB(nil, (&uMsg{Type: typ, Data: d, Filesize: u64(uint64(len(d)))}).encode())
	n := rNode{c: ri.b.pb(raw), raw: raw, tsize: uint64(len(raw)), fsize: uint64(len(d))}
	ri.put(n)
	return n
}

func (ri *refImporter) inner(ch []rNode) rNode {
	m := &uMsg{Type: uFile}
	var links []rLink
	var fs, ts uint64
	for _, c := range ch {
		links = append(links, rLink{"", c.c, c.tsize})
		m.Blocksizes = append(m.Blocksizes, c.fsize)
		fs += c.fsize
		ts += c.tsize
	}
	m.Filesize = &fs
	raw := encDagPB(links, m.encode())
	n := rNode{c: ri.b.pb(raw), raw: raw, tsize: uint64(len(raw)) + ts, fsize: fs}
	ri.put(n)
	return n
}

func (ri *refImporter) put(n rNode) {
	if ri.store != nil {
		ri.store[string(n.c.Hash())] = n.raw
	}
}

func (ri *refImporter) balanced() rNode {
	if len(ri.chunks) == 0 {
		return ri.leaf(nil, uFile)
	}
	var lvl []rNode
	for _, d := range ri.chunks {
		lvl = append(lvl, ri.leaf(d, uFile))
	}
	for len(lvl) > 1 {
		var up []rNode
		for i := 0; i < len(lvl); i += ri.maxlinks {
			j := i + ri.maxlinks
			if j > len(lvl) {
				j = len(lvl)
			}
			up = append(up, ri.inner(lvl[i:j]))
		}
		lvl = up
		ri.depth++
	}
	return lvl[0]
}

func (ri *refImporter) trickle() rNode {
	pos := 0
	var build func(maxDepth int) rNode
	build = func(maxDepth int) rNode {
		var ch []rNode
		for len(ch) < ri.maxlinks && pos < len(ri.chunks) {
			ch = append(ch, ri.leaf(ri.chunks[pos], uRaw))
			pos++
		}
		for d := 1; (maxDepth < 0 || d < maxDepth) && pos < len(ri.chunks); d++ {
			if maxDepth < 0 && d > ri.depth {
				ri.depth = d
			}
			for k := 0; k < 4 && pos < len(ri.chunks); k++ {
				ch = append(ch, build(d))
			}
		}
		return ri.inner(ch)
	}
	return build(-1)
}

// HAMT -------------------------------------------------------------------

func refMurmur64(data []byte) uint64 {
	h1, h2, _ := murmurBody(data)
	n := uint64(len(data))
	h1 ^= n
	h2 ^= n
	h1 += h2
	h2 += h1
	h1 = fmix(h1)
	h2 = fmix(h2)
	h1 += h2
	return h1
}

const (
	mc1 = 0x87c37b91114253d5
	mc2 = 0x4cf5ad432745937f
)

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

func le64(b []byte) uint64 {
	var v uint64
	for i := 7; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func murmurBody(data []byte) (h1, h2 uint64, n int) {
	for len(data) >= 16 {
		k1, k2 := le64(data), le64(data[8:])
		data = data[16:]
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27)
		h1 += h2
		h1 = h1*5 + 0x52dce729
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31)
		h2 += h1
		h2 = h2*5 + 0x38495ab5
		n++
	}
	if len(data) > 0 {
		var t [16]byte
		copy(t[:], data)
		k1, k2 := le64(t[:8]), le64(t[8:])
		if len(data) > 8 {
			k2 *= mc2
			k2 = bits.RotateLeft64(k2, 33)
			k2 *= mc1
			h2 ^= k2
		}
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
	}
	return
}

func inv64(a uint64) uint64 { // inverse of an odd number mod 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func unfmix(k uint64) uint64 {
	k ^= k >> 33
	k *= inv64(0xc4ceb9fe1a85ec53)
	k ^= k >> 33
	k *= inv64(0xff51afd7ed558ccd)
	k ^= k >> 33
	return k
}

// nameWithHash crafts a 16-byte name whose 64-bit murmur3 hash is target;
// free selects among the 2^64 solutions.
func nameWithHash(target, free uint64) string {
	f2 := free
	f1 := target - f2
	a, b := unfmix(f1), unfmix(f2) // a=h1+h2, b=h2+a after the length xor
	h2 := b - a
	h1 := a - h2
	h1 ^= 16
	h2 ^= 16
	x2 := (h2-0x38495ab5)*inv64(5) - h1
	k2 := bits.RotateLeft64(x2, -31)
	k2 *= inv64(mc1)
	k2 = bits.RotateLeft64(k2, -33)
	k2 *= inv64(mc2)
	x1 := (h1 - 0x52dce729) * inv64(5)
	k1 := bits.RotateLeft64(x1, -27)
	k1 *= inv64(mc2)
	k1 = bits.RotateLeft64(k1, -31)
	k1 *= inv64(mc1)
	var out [16]byte
	for i := 0; i < 8; i++ {
		out[i] = byte(k1 >> (8 * uint(i)))
		out[8+i] = byte(k2 >> (8 * uint(i)))
	}
	return string(out[:])
}

type rEntry struct {
	Cid   cid.Cid
	Tsize uint64
}

type refHAMT struct {
	width int
	lg2   int
	pad   int
	b     bspec
	store map[string][]byte
	nodes int
	depth int
	flaw  *Rng // produce flawed structures: sub-shards of one entry or none
}

func newRefHAMT(width int, b bspec) *refHAMT {
	return &refHAMT{width: width, lg2: bits.TrailingZeros(uint(width)), pad: len(fmt.Sprintf("%X", width-1)), b: b}
}

// slot is the child index of a hash at a depth; false when the bits run out.
func (r *refHAMT) slot(h uint64, depth int) (int, bool) {
	used := depth * r.lg2
	if used+r.lg2 > 64 {
		return 0, false
	}
	return int(h << uint(used) >> uint(64-r.lg2)), true
}

// collides says whether two hashes cannot be separated at this width.
func (r *refHAMT) collides(a, b uint64) bool {
	n := 64 / r.lg2 * r.lg2
	return a>>uint(64-n) == b>>uint(64-n)
}

func (r *refHAMT) build(entries map[string]rEntry) rNode {
	names := make([]string, 0, len(entries))
	for n := range entries {
		names = append(names, n)
	}
	sort.Strings(names)
	return r.rec(names, entries, 0)
}

// count is the number of blocks of the encoding.
func (r *refHAMT) count(entries map[string]rEntry) int {
	r.build(entries)
	return r.nodes
}

func (r *refHAMT) rec(names []string, entries map[string]rEntry, depth int) rNode {
	if depth > r.depth {
		r.depth = depth
	}
	bySlot := map[int][]string{}
	for _, n := range names {
		s, ok := r.slot(refMurmur64([]byte(n)), depth)
		if !ok {
			panic("zverif: reference HAMT given colliding names")
		}
		bySlot[s] = append(bySlot[s], n)
	}
	bf := make([]byte, r.width/8)
	var links []rLink
	var ts uint64
	for s := 0; s < r.width; s++ {
		ns := bySlot[s]
		deeper := r.flaw != nil && (depth+2)*r.lg2 <= 64 && r.flaw.Chance([]float64{0.4 / float64(r.width), 0.4}[min(len(ns), 1)])
		if len(ns) == 0 && !deeper {
			continue
		}
		bf[len(bf)-1-s/8] |= 1 << uint(s%8)
		pre := fmt.Sprintf("%0*X", r.pad, s)
		if len(ns) == 1 && !deeper {
			e := entries[ns[0]]
			links = append(links, rLink{pre + ns[0], e.Cid, e.Tsize})
			ts += e.Tsize
		} else {
			c := r.rec(ns, entries, depth+1)
			links = append(links, rLink{pre, c.c, c.tsize})
			ts += c.tsize
		}
	}
	for len(bf) > 0 && bf[0] == 0 {
		bf = bf[1:]
	}
	m := &uMsg{Type: uHAMT, HashType: u64(0x22), Fanout: u64(uint64(r.width))}
	if len(bf) > 0 { // an empty bitfield is absent
		m.Data = bf
	}
	raw := encDagPB(links, m.encode())
	n := rNode{c: r.b.pb(raw), raw: raw, tsize: uint64(len(raw)) + ts}
	if r.store != nil {
		r.store[string(n.c.Hash())] = raw
	}
	r.nodes++
	return n
}

func refBasicDir(entries map[string]rEntry, b bspec) rNode {
	var links []rLink
	var ts uint64
	names := make([]string, 0, len(entries))
	for n := range entries {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		e := entries[n]
		links = append(links, rLink{n, e.Cid, e.Tsize})
		ts += e.Tsize
	}
	raw := encDagPB(links, (&uMsg{Type: uDirectory}).encode())
	return rNode{c: b.pb(raw), raw: raw, tsize: uint64(len(raw)) + ts}
}
