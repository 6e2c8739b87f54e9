package core

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
)

// all operations at once; each nonce is added once and taken once
func TestVerifC29(t *testing.T) {
	h := vstart(t, 29)
	for h.more(5, 500) {
		db := NewNonceDb()
		var mu sync.Mutex
		added, taken, aux := map[string]int{}, map[string]int{}, map[string]int{}
		note := func(m map[string]int, k string) {
			mu.Lock()
			m[k]++
			mu.Unlock()
		}
		h.together("nonce database", 6, 300, func(r *rand.Rand, w, s int) {
			k := fmt.Sprintf("n%d", r.Intn(50))
			switch r.Intn(7) {
			case 0, 1:
				if db.Add(k, 1000, nil) != nil {
					note(added, k)
				}
			case 2:
				if db.AddAux(k, w) {
					note(aux, k)
				}
			case 3:
				db.Search(k)
			case 4:
				if o, ok := db.SearchAndDelete(k); ok {
					note(taken, o.Nonce)
				}
			case 5:
				db.DeleteOld()
			case 6:
				db.Add(fmt.Sprintf("old%d", r.Intn(50)), -5, nil)
				db.New(-5, nil)
			}
		})
		h.within("nonce database afterwards", func() {
			for k, n := range added {
				_, ok := db.Search(k)
				left := 0
				if ok {
					left = 1
				}
				h.check(taken[k]+left == n, "nonce %s was added %d times, taken %d times and is there: %v", k, n, taken[k], ok)
				h.check(aux[k] <= n, "data was attached %d times to nonce %s, added %d times", aux[k], k, n)
			}
			db.DeleteOld()
		})
		h.sample("6 callers, 300 calls each")
	}
	h.done()
}
