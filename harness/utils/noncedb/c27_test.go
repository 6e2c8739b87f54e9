package core

import (
	"fmt"
	"sync"
	"testing"
)

// histories of add, attach, search, take and clean-up against a plain map
func TestVerifC27(t *testing.T) {
	h := vstart(t, 27)
	type ent struct {
		obj  *NonceObj
		live bool
		aux  interface{}
	}
	for h.more(200, 20000) {
		db := NewNonceDb()
		m := map[string]*ent{}
		log := ""
		n := 20 + h.r.Intn(400)
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("n%d", h.r.Intn(6))
			e := m[k]
			switch h.r.Intn(9) {
			case 0, 1, 2:
				delta := int64(1000 + h.r.Intn(1000))
				if h.r.Intn(2) == 0 {
					delta = -int64(10 + h.r.Intn(1000))
				}
				var aux interface{}
				if h.r.Intn(3) == 0 {
					aux = i
				}
				o := db.Add(k, delta, aux)
				log += fmt.Sprintf(" add(%s,%d)=%v", k, delta, o != nil)
				if e != nil && e.live {
					h.check(o == nil, "nonce %s added twice;%s", k, log)
				}
				if e == nil {
					h.check(o != nil && o.Nonce == k && o.Aux == aux, "nonce %s not added;%s", k, log)
				}
				if o != nil { // absent, or expired and cleaned up
					m[k] = &ent{o, delta > 0, aux}
				}
			case 3:
				ok := db.AddAux(k, i)
				log += fmt.Sprintf(" aux(%s)=%v", k, ok)
				h.check(!ok || e != nil && e.aux == nil, "data attached to %s;%s", k, log)
				h.check(ok || e == nil || !e.live || e.aux != nil, "data not attached to %s;%s", k, log)
				if ok {
					e.aux = i
				}
			case 4, 5:
				o, ok := db.Search(k)
				log += fmt.Sprintf(" search(%s)=%v", k, ok)
				h.check(ok == (e != nil && e.live), "search %s: %v;%s", k, ok, log)
				h.check(!ok || o == e.obj && o.Aux == e.aux, "search %s finds another object;%s", k, log)
			case 6:
				o, ok := db.SearchAndDelete(k)
				log += fmt.Sprintf(" take(%s)=%v", k, ok)
				h.check(ok == (e != nil && e.live), "take %s: %v;%s", k, ok, log)
				h.check(!ok || o == e.obj && o.Aux == e.aux, "take %s gives another object;%s", k, log)
				delete(m, k)
			case 7:
				if h.r.Intn(4) == 0 {
					db.DeleteOld()
					log += " clean"
				}
			case 8:
				o := db.New(500, nil)
				h.check(o != nil && len(o.Nonce) == 66, "fresh nonce %v", o)
			}
			if len(log) > 1500 {
				log = "..." + log[len(log)-1200:]
			}
		}
		h.sample("%s", log)
		if h.n%20 != 0 {
			continue
		}
		// taking one nonce from several places at once succeeds once
		db = NewNonceDb()
		for i := 0; i < 50; i++ {
			k := fmt.Sprint(i)
			db.Add(k, 1000, nil)
			var wg sync.WaitGroup
			var mu sync.Mutex
			got := 0
			for j := 0; j < 4; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if _, ok := db.SearchAndDelete(k); ok {
						mu.Lock()
						got++
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			h.check(got == 1, "nonce %s was taken %d times", k, got)
		}
	}
	h.done()
}
