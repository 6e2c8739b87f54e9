package issuer

import (
	"errors"
	"math/rand"
	"sync"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

type noRead struct{ db.Tx }

func (noRead) Get([]byte) ([]byte, error) { return nil, errors.New("no read") }

// one generator and one transaction, many callers: no nonce twice
func TestVerifC29(t *testing.T) {
	h := vstart(t, 29)
	for h.more(10, 500) {
		u := NewUniqueNonceGen(db.NewStorageValue([]byte("i")))
		tx, err := db.NewMemoryStorage().NewTx()
		h.check(err == nil, "transaction: %v", err)
		u.Init(tx)
		seen := map[uint32]bool{}
		var mu sync.Mutex
		h.together("nonces", 6, 50, func(r *rand.Rand, _, _ int) {
			if r.Intn(10) == 0 {
				_, err := u.Next(noRead{tx})
				h.check(err != nil, "a nonce without a counter")
				return
			}
			n, err := u.Next(tx)
			h.check(err == nil, "no nonce: %v", err)
			mu.Lock()
			dup := seen[n]
			seen[n] = true
			mu.Unlock()
			h.check(!dup, "nonce %d was handed out twice", n)
		})
		h.sample("%d nonces", len(seen))
	}
	h.done()
}
