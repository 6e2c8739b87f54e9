package merkletree

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

// independent reference: numbers are little-endian, trees are computed from the set of entries

var refQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func refInt(b []byte) *big.Int {
	r := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		r.Lsh(r, 8)
		r.Or(r, big.NewInt(int64(b[i])))
	}
	return r
}

func refBytes(v *big.Int) (r [32]byte) {
	x := new(big.Int).Set(v)
	for i := range r {
		r[i] = byte(new(big.Int).And(x, big.NewInt(255)).Int64())
		x.Rsh(x, 8)
	}
	return
}

func refH(xs ...*big.Int) ([32]byte, bool) {
	var in [poseidon.T]*big.Int
	for i := range in {
		in[i] = big.NewInt(0)
		if i < len(xs) {
			in[i] = xs[i]
		}
		if in[i].Cmp(refQ) >= 0 {
			return [32]byte{}, false
		}
	}
	o, err := poseidon.PoseidonHash(in)
	if err != nil {
		return [32]byte{}, false
	}
	return refBytes(o), true
}

func refHi(d Data) ([32]byte, bool) {
	return refH(refInt(d[0][:]), refInt(d[1][:]), refInt(d[2][:]), refInt(d[3][:]))
}
func refHv(d Data) ([32]byte, bool) {
	return refH(refInt(d[4][:]), refInt(d[5][:]), refInt(d[6][:]), refInt(d[7][:]))
}
func refLeaf(hi, hv [32]byte) ([32]byte, bool) {
	return refH(refInt(hi[:]), refInt(hv[:]), big.NewInt(1))
}
func refMid(l, r [32]byte) ([32]byte, bool) { return refH(refInt(l[:]), refInt(r[:])) }
func refBit(h [32]byte, l int) bool          { return h[l/8]>>(uint(l)%8)&1 == 1 }

type refEntry struct {
	d          Data
	hi, hv, lk [32]byte
}

func refNewEntry(d Data) (e refEntry) {
	e.d = d
	e.hi, _ = refHi(d)
	e.hv, _ = refHv(d)
	e.lk, _ = refLeaf(e.hi, e.hv)
	return
}

func refSplit(es []refEntry, lvl int) (l, r []refEntry) {
	for _, e := range es {
		if refBit(e.hi, lvl) {
			r = append(r, e)
		} else {
			l = append(l, e)
		}
	}
	return
}

func refRoot(es []refEntry, lvl int) [32]byte {
	if len(es) == 0 {
		return [32]byte{}
	}
	if len(es) == 1 {
		return es[0].lk
	}
	l, r := refSplit(es, lvl)
	k, _ := refMid(refRoot(l, lvl+1), refRoot(r, lvl+1))
	return k
}

// refFits: a set can be placed when every leaf gets its own place above maxLevels
func refFits(es []refEntry, lvl, max int) bool {
	if len(es) == 0 {
		return true
	}
	if lvl > max-1 {
		return false
	}
	if len(es) == 1 {
		return true
	}
	l, r := refSplit(es, lvl)
	return refFits(l, lvl+1, max) && refFits(r, lvl+1, max)
}

func refFind(es []refEntry, hi [32]byte) *refEntry {
	for i := range es {
		if es[i].hi == hi {
			return &es[i]
		}
	}
	return nil
}

func (h *vh) elem() (e ElemBytes) {
	copy(e[:], h.bytes(32))
	e[31] &= 0x1f
	if h.r.Intn(3) > 0 {
		for i := 2 + h.r.Intn(8); i < 32; i++ {
			e[i] = 0
		}
	}
	return
}

func (h *vh) data() (d Data) {
	for i := range d {
		if h.r.Intn(3) > 0 {
			d[i] = h.elem()
		}
	}
	return
}

// pool of entries ordered by the reversed bits of their path, so neighbours share long prefixes
var refPool []refEntry

func (h *vh) pool(n int) []refEntry {
	if len(refPool) >= n {
		return refPool
	}
	for len(refPool) < n {
		d := h.data()
		d[1][0], d[1][1] = byte(len(refPool)), byte(len(refPool)>>8)
		refPool = append(refPool, refNewEntry(d))
	}
	rev := func(e refEntry) string {
		b := make([]byte, 32)
		for i := 0; i < 256; i++ {
			if refBit(e.hi, i) {
				b[i/8] |= 0x80 >> uint(i%8)
			}
		}
		return string(b)
	}
	sort.Slice(refPool, func(i, j int) bool { return rev(refPool[i]) < rev(refPool[j]) })
	return refPool
}

// pick: a random set, often of neighbours
func (h *vh) pick(pool []refEntry, n int) []refEntry {
	var out []refEntry
	used := map[int]bool{}
	at := h.r.Intn(len(pool))
	for len(out) < n {
		if h.r.Intn(3) == 0 {
			at = h.r.Intn(len(pool))
		} else {
			at = (at + 1) % len(pool)
		}
		if !used[at] {
			used[at] = true
			out = append(out, pool[at])
		}
	}
	return out
}

// failing storage: the failAt-th operation fails
type faultStorage struct {
	db.Storage
	left *int
}

var errFault = errors.New("injected storage failure")

func (f *faultStorage) hit() bool {
	if *f.left < 0 {
		return false
	}
	*f.left--
	return *f.left < 0
}
func (f *faultStorage) WithPrefix(p []byte) db.Storage {
	return &faultStorage{f.Storage.WithPrefix(p), f.left}
}
func (f *faultStorage) Get(k []byte) ([]byte, error) {
	if f.hit() {
		return nil, errFault
	}
	return f.Storage.Get(k)
}
func (f *faultStorage) NewTx() (db.Tx, error) {
	if f.hit() {
		return nil, errFault
	}
	tx, err := f.Storage.NewTx()
	if err != nil {
		return nil, err
	}
	return &faultTx{tx, f}, nil
}

type faultTx struct {
	db.Tx
	f *faultStorage
}

func (t *faultTx) Get(k []byte) ([]byte, error) {
	if t.f.hit() {
		return nil, errFault
	}
	return t.Tx.Get(k)
}
func (t *faultTx) Commit() error {
	if t.f.hit() {
		return errFault
	}
	return t.Tx.Commit()
}

func (h *vh) storeDump(s db.Storage) string {
	var b bytes.Buffer
	if err := s.Iterate(func(k, v []byte) (bool, error) {
		fmt.Fprintf(&b, "%x=%x\n", k, v)
		return true, nil
	}); err != nil {
		h.fail("iterate: %v", err)
	}
	return b.String()
}

func descSet(es []refEntry) string {
	var b bytes.Buffer
	for i, e := range es {
		if i == 12 {
			fmt.Fprintf(&b, "... (%d entries)", len(es))
			break
		}
		x := e.d.Bytes()
		fmt.Fprintf(&b, "[hi=%x data=%x]", e.hi[:4], bytes.TrimRight(x[:], "\x00"))
	}
	return b.String()
}

// a proof as plain values
type refProof struct {
	exist  bool
	depth  int
	bits   [30]byte // the last byte first
	sibs   [][32]byte
	aux    bool
	ahi    [32]byte
	ahv    [32]byte
}

func (p refProof) bit(l int) bool { return p.bits[29-l/8]>>(uint(l)%8)&1 == 1 }

func (p refProof) bytes() []byte {
	b := make([]byte, 32)
	if !p.exist {
		b[0] = 1
	}
	if p.aux {
		b[0] |= 2
	}
	b[1] = byte(p.depth)
	copy(b[2:], p.bits[:])
	for _, s := range p.sibs {
		b = append(b, s[:]...)
	}
	if p.aux {
		b = append(b, p.ahi[:]...)
		b = append(b, p.ahv[:]...)
	}
	return b
}

// refParse: the proof the bytes stand for
func refParse(b []byte) (p refProof, ok bool) {
	if len(b) < 32 {
		return p, false
	}
	p.exist = b[0]&1 == 0
	p.aux = b[0]&3 == 3
	p.depth = int(b[1])
	if p.depth > 240 {
		return p, false
	}
	copy(p.bits[:], b[2:32])
	rest := b[32:]
	for l := 0; l < p.depth; l++ {
		if p.bit(l) {
			if len(rest) < 32 {
				return p, false
			}
			var s [32]byte
			copy(s[:], rest)
			p.sibs = append(p.sibs, s)
			rest = rest[32:]
		}
	}
	if p.aux {
		if len(rest) != 64 {
			return p, false
		}
		copy(p.ahi[:], rest)
		copy(p.ahv[:], rest[32:])
	}
	return p, true
}

// root recomputes the root; false when the proof may not be used
func (p refProof) root(hi, hv [32]byte) ([32]byte, bool) {
	var k [32]byte
	ok := true
	if p.exist {
		k, ok = refLeaf(hi, hv)
	} else if p.aux {
		if p.ahi == hi {
			return k, false
		}
		k, ok = refLeaf(p.ahi, p.ahv)
	}
	if !ok {
		return k, false
	}
	j := len(p.sibs)
	for l := p.depth - 1; l >= 0; l-- {
		var s [32]byte
		if p.bit(l) {
			j--
			s = p.sibs[j]
		}
		if refBit(hi, l) {
			k, ok = refMid(s, k)
		} else {
			k, ok = refMid(k, s)
		}
		if !ok {
			return k, false
		}
	}
	return k, true
}

func (h *vh) refProof() (p refProof) {
	switch h.r.Intn(4) {
	case 0:
		p.depth = h.r.Intn(4)
	case 1:
		p.depth = h.r.Intn(241)
	case 2:
		p.depth = []int{7, 8, 9, 16, 17, 239, 240}[h.r.Intn(7)]
	default:
		p.depth = h.r.Intn(24)
	}
	dense := h.r.Intn(3)
	for l := 0; l < p.depth; l++ {
		if dense == 0 || dense == 1 && h.r.Intn(4) == 0 || dense == 2 && h.r.Intn(30) == 0 {
			p.bits[29-l/8] |= 1 << (uint(l) % 8)
			s := [32]byte(h.elem())
			if h.r.Intn(40) == 0 {
				copy(s[:], h.bytes(32))
			}
			p.sibs = append(p.sibs, s)
		}
	}
	if h.r.Intn(8) == 0 { // bits beyond the depth mean nothing
		for l := p.depth; l < 240; l++ {
			if h.r.Intn(3) == 0 {
				p.bits[29-l/8] |= 1 << (uint(l) % 8)
			}
		}
	}
	p.exist = h.r.Intn(3) == 0
	if !p.exist {
		p.aux = h.r.Intn(2) == 0
		if p.aux {
			p.ahi, p.ahv = [32]byte(h.elem()), [32]byte(h.elem())
			if h.r.Intn(10) == 0 {
				copy(p.ahv[:], h.bytes(32))
			}
		}
	}
	return
}

// refWalk: the proof of an index against a set
func refPath(es []refEntry, hi [32]byte) (p refProof, found *refEntry) {
	for {
		if len(es) == 0 {
			return
		}
		if len(es) == 1 {
			if es[0].hi == hi {
				p.exist = true
				return p, &es[0]
			}
			p.aux, p.ahi, p.ahv = true, es[0].hi, es[0].hv
			return
		}
		l, r := refSplit(es, p.depth)
		if refBit(hi, p.depth) {
			l, r = r, l
		}
		if s := refRoot(r, p.depth+1); s != [32]byte{} {
			p.bits[29-p.depth/8] |= 1 << (uint(p.depth) % 8)
			p.sibs = append(p.sibs, s)
		}
		es = l
		p.depth++
	}
}

// a tree built by adding entries in order; the set of what was added
func (h *vh) tree(st db.Storage, max int, es []refEntry) (*MerkleTree, []refEntry) {
	mt, err := NewMerkleTree(st, max)
	h.check(err == nil, "new tree: %v", err)
	var in []refEntry
	for _, e := range es {
		nx := append(in[:len(in):len(in)], e)
		err := mt.AddEntry(&Entry{Data: e.d})
		want := refFind(in, e.hi) == nil && refFits(nx, 0, max)
		h.check((err == nil) == want, "tree of %d levels with %s: adding %s: %v", max, descSet(in), descSet([]refEntry{e}), err)
		if err == nil {
			in = nx
		}
		h.check([32]byte(*mt.RootKey()) == refRoot(in, 0), "tree of %d levels: after adding %s the root is %x", max, descSet(nx), mt.RootKey()[:])
	}
	return mt, in
}

// lookups must agree with the set
func (h *vh) lookups(what string, mt *MerkleTree, in, others []refEntry) {
	for i := range in {
		hi := Hash(in[i].hi)
		d, err := mt.GetDataByIndex(&hi)
		h.check(err == nil && *d == in[i].d, "%s: holding %s: lookup of %s gives %v", what, descSet(in), descSet(in[i:i+1]), err)
		h.check(mt.EntryExists(&Entry{Data: in[i].d}, nil) == nil, "%s: holding %s: entry %s is not said to exist", what, descSet(in), descSet(in[i:i+1]))
		x := in[i].d
		x[4+h.r.Intn(4)][h.r.Intn(31)] ^= 1
		h.check(mt.EntryExists(&Entry{Data: x}, nil) != nil, "%s: holding %s: entry %x is said to exist", what, descSet(in), x)
	}
	for i := range others {
		if refFind(in, others[i].hi) != nil {
			continue
		}
		hi := Hash(others[i].hi)
		_, err := mt.GetDataByIndex(&hi)
		h.check(err == ErrEntryIndexNotFound, "%s: holding %s: lookup of absent %s gives %v", what, descSet(in), descSet(others[i:i+1]), err)
		h.check(mt.EntryExists(&Entry{Data: others[i].d}, nil) != nil, "%s: absent %s is said to exist", what, descSet(others[i:i+1]))
	}
}

func (h *vh) levels() int { return []int{3, 4, 5, 8, 10, 24, 140, 240}[h.r.Intn(8)] }

// copyStore: an independent copy of what is stored
func (h *vh) copyStore(s db.Storage) db.Storage {
	c := db.NewMemoryStorage()
	tx, _ := c.NewTx()
	if err := s.Iterate(func(k, v []byte) (bool, error) {
		tx.Put(append([]byte{}, k...), append([]byte{}, v...))
		return true, nil
	}); err != nil {
		h.fail("iterate: %v", err)
	}
	if err := tx.Commit(); err != nil {
		h.fail("commit: %v", err)
	}
	return c
}
