package writerhttp

import (
	"errors"
	"math/rand"
	"sync/atomic"
	"testing"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

// a storage in which single steps fail
type flaky struct {
	db.Storage
	n, at int64
}

func (f *flaky) fails() bool { return atomic.AddInt64(&f.n, 1) == atomic.LoadInt64(&f.at) }

func (f *flaky) NewTx() (db.Tx, error) {
	if f.fails() {
		return nil, errors.New("no transaction")
	}
	tx, err := f.Storage.NewTx()
	return &flakyTx{tx, f}, err
}

type flakyTx struct {
	db.Tx
	f *flaky
}

func (t *flakyTx) Get(k []byte) ([]byte, error) {
	if t.f.fails() {
		return nil, errors.New("no read")
	}
	return t.Tx.Get(k)
}

func (t *flakyTx) Commit() error {
	if t.f.fails() {
		return errors.New("no commit")
	}
	return t.Tx.Commit()
}

// all operations at once; every step of the storage fails once; afterwards the writer still answers
func TestVerifC29(t *testing.T) {
	h := vstart(t, 29)
	for h.more(5, 500) {
		s := &flaky{Storage: db.NewMemoryStorage(), at: -1}
		w, err := NewIdenPubOffChainWriteHttp(&Config{CacheLen: byte(1 + h.r.Intn(4))}, s)
		h.check(err == nil, "new: %v", err)
		data := func(n byte) *idenpuboffchain.PublicData {
			a, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			b, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			return &idenpuboffchain.PublicData{IdenState: &merkletree.Hash{n}, ClaimsTreeRoot: &merkletree.Hash{n, 1},
				RevocationsTreeRoot: &merkletree.Hash{}, RevocationsTree: a, RootsTreeRoot: &merkletree.Hash{}, RootsTree: b}
		}
		h.within("first publication", func() { h.check(w.Publish(nil, data(0)) == nil, "not published") })
		h.together("writer", 4, 25, func(r *rand.Rand, _, _ int) {
			n := byte(r.Intn(5))
			switch r.Intn(3) {
			case 0:
				w.Publish(nil, data(n)) //nolint:errcheck
			case 1:
				d, err := w.GetPublicData(&merkletree.Hash{n})
				h.check(err != nil || d.ClaimsTreeRoot == merkletree.Hash{n, 1}, "data of another state")
			case 2:
				d, err := w.GetPublicData(nil)
				h.check(err == nil && d.ClaimsTreeRoot == merkletree.Hash{d.IdenState[0], 1}, "mixed data or none: %v", err)
			}
		})
		for i := int64(1); i < 14; i++ {
			h.within("an operation with a failing step", func() {
				atomic.StoreInt64(&s.n, 0)
				atomic.StoreInt64(&s.at, i)
				switch h.r.Intn(3) {
				case 0:
					w.Publish(nil, data(7)) //nolint:errcheck
				case 1:
					w.GetPublicData(nil) //nolint:errcheck
				case 2:
					w.GetPublicData(&merkletree.Hash{7}) //nolint:errcheck
				}
				atomic.StoreInt64(&s.at, -1)
				h.check(w.Publish(nil, data(8)) == nil, "not published after a failure")
				d, err := w.GetPublicData(nil)
				h.check(err == nil && d.IdenState == merkletree.Hash{8}, "the latest is not served after a failure")
			})
		}
		h.sample("4 callers, 25 calls each")
	}
	h.done()
}
