package writerhttp

import (
	"errors"
	"sync"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// ---- the storage: any content, any access may fail. A transaction writes to its own copy;
// committing it makes the copy the content.

type absStore struct {
	m       map[string][]byte
	commits int
	// read by each access to the content, written by each change
	touched int
	// what is known of the content, if anything: the data p is in the slot with that suffix, or in
	// each slot that holds the state q; roots have 32 bytes (Publish establishes this)
	p      *idenpuboffchain.PublicDataBlobs
	q      *merkletree.Hash
	suffix string
}

// what is known of the value x stored under key k
func (t *absTx) specKnown(k string, x []byte, ok bool) bool {
	p := t.s.p
	if p == nil || len(k) < 2 {
		return true
	}
	sfx := k[len(k)-2:]
	here := sfx == t.s.suffix
	if t.s.q != nil {
		st, okq := t.w["idenstate-"+sfx]
		here = okq && v.BytesEq(st, t.s.q[:])
	}
	switch {
	case k == "idenstate-"+sfx:
		return (!ok || len(x) == 32) && (!here || ok && v.BytesEq(x, p.IdenState[:]))
	case k == "claimsroot-"+sfx:
		return (!ok || len(x) == 32) && (!here || ok && v.BytesEq(x, p.ClaimsTreeRoot[:]))
	case k == "rootsroot-"+sfx:
		return (!ok || len(x) == 32) && (!here || ok && v.BytesEq(x, p.RootsTreeRoot[:]))
	case k == "revocationsroot-"+sfx:
		return (!ok || len(x) == 32) && (!here || ok && v.BytesEq(x, p.RevocationsTreeRoot[:]))
	case k == "rootstree-"+sfx:
		return !here || ok && v.BytesEq(x, p.RootsTree)
	case k == "revocationstree-"+sfx:
		return !here || ok && v.BytesEq(x, p.RevocationsTree)
	}
	return true
}

type absTx struct {
	s *absStore
	w map[string][]byte
}

func (s *absStore) Info() string                       { panic("not used") }
func (s *absStore) WithPrefix(prefix []byte) db.Storage { panic("not used") }
func (s *absStore) Get(k []byte) ([]byte, error) {
	if v.AnyBool("get fails") {
		return nil, errors.New("get failure")
	}
	x, ok := s.m[string(k)]
	if !ok {
		return nil, db.ErrNotFound
	}
	return x, nil
}
func (s *absStore) List(n int) ([]db.KV, error)                         { panic("not used") }
func (s *absStore) Close()                                             { panic("not used") }
func (s *absStore) Iterate(f func([]byte, []byte) (bool, error)) error { panic("not used") }
func (s *absStore) NewTx() (db.Tx, error) {
	if v.AnyBool("new transaction fails") {
		return nil, errors.New("transaction failure")
	}
	return &absTx{s: s, w: v.Old(s.m).(map[string][]byte)}, nil
}

func (t *absTx) Get(k []byte) ([]byte, error) {
	_ = t.s.touched
	if v.AnyBool("get fails") {
		return nil, errors.New("get failure")
	}
	x, ok := t.w[string(k)]
	v.Requires(t.specKnown(string(k), x, ok))
	if !ok {
		return nil, db.ErrNotFound
	}
	return x, nil
}
func (t *absTx) Put(k, x []byte) {
	t.w[string(k)] = x
}
func (t *absTx) Add(db.Tx)       { panic("not used") }
func (t *absTx) Commit() error {
	t.s.touched = 1
	if v.AnyBool("commit fails") {
		return errors.New("commit failure")
	}
	t.s.m = t.w
	t.s.commits++
	return nil
}
func (t *absTx) Close() {}

// ---- specifications

// the keys of one slot of the ring
func specKey(kind int, idx byte) string {
	switch kind {
	case 0:
		return string(keyIdx(dbKeyIdenState, idx))
	case 1:
		return string(keyIdx(dbKeyClaimsRoot, idx))
	case 2:
		return string(keyIdx(dbKeyRootsRoot, idx))
	case 3:
		return string(keyIdx(dbKeyRootsTree, idx))
	case 4:
		return string(keyIdx(dbKeyRevocationsRoot, idx))
	}
	return string(keyIdx(dbKeyRevocationsTree, idx))
}

//verif:contract prop=C25 target=keyIdx
func vc_keyIdx(i, j byte, a, b int) {
	v.Requires(0 <= a && a < 6 && 0 <= b && b < 6)
	keyIdx(dbKeyIdenState, i)
	k, l := specKey(a, i), specKey(b, j)
	v.Ensures("each kind and slot has its own key", (k == l) == (a == b && i == j))
	v.Ensures("none is the key of the position or the configuration", k != string(dbKeyCacheIdx) && k != string(dbKeyConfig))
}

// the slot of the k-th last publication, k from 1 on, where c is the slot to be written next
func specSlot(c, n byte, k int) byte {
	s := int(c) - k
	if s < 0 {
		s += int(n)
	}
	return byte(s)
}

func specLast(c, n byte) byte {
	if c == 0 {
		return n - 1
	}
	return c - 1
}

// ---- publishing

// The blob of a tree is a function of the tree and the root (decided by C30).
//
//verif:stub target=(*github.com/iden3/go-iden3-core/merkletree.MerkleTree).DumpTree
func stub_DumpTree(mt *merkletree.MerkleTree, w interface{ Write([]byte) (int, error) }, root *merkletree.Hash, rotRoot, retRoot *merkletree.Hash, rotBlob, retBlob []byte) error {
	if v.AnyBool("dump fails") {
		return errors.New("dump failure")
	}
	if v.Field(mt, "maxLevels").(int) == 1 {
		v.Assert("the roots tree at its root", *root == *rotRoot)
		w.Write(rotBlob)
	} else {
		v.Assert("the revocation tree at its root", *root == *retRoot)
		w.Write(retBlob)
	}
	return nil
}

//verif:contract prop=C25,C29 target=IdenPubOffChainWriteHttp.Publish
func vc_Publish(id *core.ID, st, clr, rotRoot, retRoot *merkletree.Hash, rotBlob, retBlob []byte, m map[string][]byte, n byte, k int) {
	rot, ret := &merkletree.MerkleTree{}, &merkletree.MerkleTree{}
	v.SetField(rot, "maxLevels", 1)
	v.SetField(ret, "maxLevels", 2)
	s := &absStore{m: m}
	cb, ok := m[string(dbKeyCacheIdx)]
	v.Requires(ok && len(cb) == 1)
	c := cb[0]
	v.Requires(n > 0 && c < n && 1 <= k && (k == 1 || k < int(n)))
	i := &IdenPubOffChainWriteHttp{rw: &sync.RWMutex{}, storage: s, cfg: &Config{CacheLen: n}}
	v.Guarded(i.rw, "published data", &s.touched)
	slot := specSlot(c, n, k)
	v.Modifies(s)
	err := i.Publish(id, &idenpuboffchain.PublicData{IdenState: st, ClaimsTreeRoot: clr, RevocationsTreeRoot: retRoot, RevocationsTree: ret, RootsTreeRoot: rotRoot, RootsTree: rot})
	v.Ensures("published completely or not at all", (err == nil) == (s.commits == 1) && (err == nil || s.commits == 0))
	if err != nil {
		return
	}
	nb, ok := s.m[string(dbKeyCacheIdx)]
	v.Ensures("the position moves on by one", ok && len(nb) == 1 && int(nb[0]) == (int(c)+1)%int(n))
	next := nb[0]
	v.Ensures("the slot written is the last one", specLast(next, n) == c)
	v.Ensures("its state", v.BytesEq(s.m[specKey(0, c)], st[:]))
	v.Ensures("its claims root", v.BytesEq(s.m[specKey(1, c)], clr[:]))
	v.Ensures("its roots root", v.BytesEq(s.m[specKey(2, c)], rotRoot[:]))
	v.Ensures("its roots tree", v.BytesEq(s.m[specKey(3, c)], rotBlob))
	v.Ensures("its revocations root", v.BytesEq(s.m[specKey(4, c)], retRoot[:]))
	v.Ensures("its revocations tree", v.BytesEq(s.m[specKey(5, c)], retBlob))
	v.Ensures("the earlier ones are one further back", k >= int(n) || specSlot(next, n, k+1) == slot)
	for kind := 0; kind < 6; kind++ {
		was, before := m[specKey(kind, slot)]
		now, is := s.m[specKey(kind, slot)]
		v.Ensures("and stay as they are", k >= int(n) || before == is && (!is || v.BytesEq(was, now)))
		w, has := s.m[specKey(kind, c)]
		v.Ensures("all of it is there", has && len(w) >= 0)
	}
	v.Cover("published")
}

// ---- queries

func specSame(r, p *idenpuboffchain.PublicDataBlobs) bool {
	return r.IdenState == p.IdenState && r.ClaimsTreeRoot == p.ClaimsTreeRoot && r.RootsTreeRoot == p.RootsTreeRoot &&
		r.RevocationsTreeRoot == p.RevocationsTreeRoot && v.BytesEq(r.RootsTree, p.RootsTree) && v.BytesEq(r.RevocationsTree, p.RevocationsTree)
}

//verif:contract prop=C25,C29 target=IdenPubOffChainWriteHttp.GetPublicData fuel=40
func vc_GetLast(m map[string][]byte, p *idenpuboffchain.PublicDataBlobs, n byte) {
	s := &absStore{m: m}
	cb, ok := m[string(dbKeyCacheIdx)]
	v.Requires(ok && len(cb) == 1)
	c := cb[0]
	v.Requires(n > 0 && c < n)
	i := &IdenPubOffChainWriteHttp{rw: &sync.RWMutex{}, storage: s, cfg: &Config{CacheLen: n}}
	v.Guarded(i.rw, "published data", &s.touched)
	last := n - 1
	if c != 0 {
		last = c - 1
	}
	s.p, s.suffix = p, specKey(0, last)[10:]
	r, err := i.GetPublicData(nil)
	v.Ensures("data or an error", (r == nil) == (err != nil))
	if err == nil {
		v.Ensures("the data published last", specSame(r, p))
		v.Cover("answered")
	}
}

//verif:inv target=IdenPubOffChainWriteHttp.GetPublicData
func inv_Get(i *IdenPubOffChainWriteHttp, cacheIdx, j byte, q *merkletree.Hash, m map[string][]byte) bool {
	x, ok := m[specKey(0, j)]
	return cacheIdx <= i.cfg.CacheLen && (j >= cacheIdx || !ok || !v.BytesEq(x, q[:]))
}

//verif:contract prop=C25,C29 target=IdenPubOffChainWriteHttp.GetPublicData fuel=40
func vc_GetState(m map[string][]byte, p *idenpuboffchain.PublicDataBlobs, q *merkletree.Hash, j, n byte) {
	s := &absStore{m: m}
	v.Requires(n > 0 && j < n)
	i := &IdenPubOffChainWriteHttp{rw: &sync.RWMutex{}, storage: s, cfg: &Config{CacheLen: n}}
	v.Guarded(i.rw, "published data", &s.touched)
	// what was published for one state is the same each time
	s.p, s.q = p, q
	v.Requires(p.IdenState == *q)
	x, held := m[specKey(0, j)]
	r, err := i.GetPublicData(q)
	v.Ensures("data or an error", (r == nil) == (err != nil))
	if err == nil {
		v.Ensures("the data published for that state", specSame(r, p))
		v.Cover("answered")
	}
	v.Ensures("a state that is held is not reported missing", err != ErrIdenStateNotFound || !held || !v.BytesEq(x, q[:]))
}
