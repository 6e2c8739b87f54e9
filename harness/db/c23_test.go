package db

import (
	"fmt"
	"testing"
)

type elem struct {
	N int
	S string
}

func TestVerifC23(t *testing.T) {
	h := vstart(t, 23)
	for h.more(40, 3000) {
		s := NewMemoryStorage()
		tx, err := s.NewTx()
		h.check(err == nil, "%v", err)
		mem := make([]byte, 2, 40)
		var ls []*StorageList
		var vs []*StorageValue
		type it struct {
			k string
			e elem
		}
		var want [3][]it
		val := [3]int64{-1, -1, -1}
		for i := 0; i < 3; i++ { // keys of the same length, passed in memory with room behind
			pl := append(make([]byte, 0, 40), fmt.Sprintf("l%d", i)...)
			pv := append(make([]byte, 0, 40), fmt.Sprintf("v%d", i)...)
			copy(mem, pl)
			l := NewStorageList(mem)
			copy(mem, "??")
			ls = append(ls, l)
			vs = append(vs, NewStorageValue(pv))
			if _, err := l.Length(tx); err != ErrNotFound {
				h.fail("length of a list never initialised: %v", err)
			}
			l.Init(tx)
		}
		for step := 0; step < 40; step++ {
			i := h.r.Intn(3)
			switch h.r.Intn(3) {
			case 0, 1:
				e := it{string(h.bytes(h.r.Intn(6))), elem{h.r.Intn(1000), fmt.Sprint(h.r.Intn(50))}}
				h.check(ls[i].Append(tx, []byte(e.k), e.e) == nil, "append")
				want[i] = append(want[i], e)
			case 2:
				x := h.r.Uint32()
				vs[i].Set(tx, x)
				val[i] = int64(x)
			}
			if h.r.Intn(10) == 0 {
				h.check(tx.Commit() == nil, "commit")
				tx, _ = s.NewTx()
			}
		}
		for i := 0; i < 3; i++ {
			x, err := vs[i].Get(tx)
			h.check((err == nil) == (val[i] >= 0) && (err != nil || int64(x) == val[i]), "value %d: %d %v, want %d", i, x, err, val[i])
			n, err := ls[i].Length(tx)
			h.check(err == nil && int(n) == len(want[i]), "list %d has %d elements, want %d", i, n, len(want[i]))
			last := map[string]elem{}
			for _, e := range want[i] {
				last[e.k] = e.e
			}
			for j, e := range want[i] {
				var g elem
				k, err := ls[i].GetByIdx(tx, uint32(j), &g)
				h.check(err == nil && string(k) == e.k && g == last[e.k], "list %d position %d: %q %+v %v, want %q %+v", i, j, k, g, err, e.k, last[e.k])
				g = elem{}
				h.check(ls[i].Get(tx, []byte(e.k), &g) == nil && g == last[e.k], "list %d key %q", i, e.k)
			}
			var g elem
			_, err = ls[i].GetByIdx(tx, n, &g)
			h.check(err == ErrNotFound, "position never filled: %v", err)
		}
		h.sample("%d %d %d elements", len(want[0]), len(want[1]), len(want[2]))
	}
	h.done()
}
