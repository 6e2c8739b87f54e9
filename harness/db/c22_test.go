package db

import (
	"bytes"
	"io/ioutil"
	"os"
	"sort"
	"testing"
)

// what a storage should hold, by full key
type model map[string]string

func (m model) copy() model {
	n := model{}
	for k, x := range m {
		n[k] = x
	}
	return n
}

func (h *vh) under(m model, prefix string) (r []KV) {
	for k, x := range m {
		if len(k) >= len(prefix) && k[:len(prefix)] == prefix {
			r = append(r, KV{[]byte(k[len(prefix):]), []byte(x)})
		}
	}
	sort.Slice(r, func(i, j int) bool { return bytes.Compare(r[i].K, r[j].K) < 0 })
	return
}

func (h *vh) view(s Storage, prefix string, m model, keys []string) {
	for _, k := range keys {
		w, ok := m[prefix+k]
		x, err := s.Get([]byte(k))
		h.check((err == nil) == ok && (ok || err == ErrNotFound) && (!ok || string(x) == w), "view %q key %q: %q %v, want %q %v", prefix, k, x, err, w, ok)
	}
	want := h.under(m, prefix)
	lim := h.r.Intn(4)
	l, err := s.List(lim)
	n := len(want)
	if lim > 0 && lim < n {
		n = lim
	}
	h.check(err == nil && len(l) == n, "list of %d in view %q: %d elements, want %d, %v", lim, prefix, len(l), n, err)
	for i := range l {
		h.check(bytes.Equal(l[i].K, want[i].K) && bytes.Equal(l[i].V, want[i].V), "list of view %q at %d: %q=%q want %q=%q", prefix, i, l[i].K, l[i].V, want[i].K, want[i].V)
	}
}

func TestVerifC22(t *testing.T) {
	h := vstart(t, 22)
	for h.more(30, 2000) {
		var s Storage = NewMemoryStorage()
		dir := ""
		if h.r.Intn(3) == 0 {
			var err error
			dir, err = ioutil.TempDir("", "verifc22")
			h.check(err == nil, "%v", err)
			s, err = NewLevelDbStorage(dir, false)
			h.check(err == nil, "%v", err)
		}
		prefixes := []string{"", "a", "b", "aa", "ab", "\xff"}
		keys := []string{"", "a", "b", "ab", "ba", "aab", "\x00", "\xff", "longer than thirty-two bytes, so as to leave any buffer"}
		views := map[string]Storage{"": s}
		for _, p := range prefixes[1:] {
			pb := append(make([]byte, 0, 64), p...)
			v := s.WithPrefix(pb[:1])
			if len(p) > 1 {
				v = v.WithPrefix(pb[1:])
			}
			v2 := v.WithPrefix([]byte("x")) // a sibling made from the same view
			v2 = v.WithPrefix([]byte("y"))
			_ = v2
			for i := range pb {
				pb[i] = 0
			}
			views[p] = v
		}
		stored := model{}
		for step := 0; step < 12; step++ {
			p := prefixes[h.r.Intn(len(prefixes))]
			tx, err := views[p].NewTx()
			h.check(err == nil, "%v", err)
			over := model{}
			put := func(tx Tx, m model) {
				for i := h.r.Intn(5); i > 0; i-- {
					k := keys[h.r.Intn(len(keys))]
					x := string(h.bytes(h.r.Intn(40)))
					kb := append(make([]byte, 0, 100), k...)
					tx.Put(kb, []byte(x))
					for i := range kb { // the key was not handed over
						kb[i] = 'z'
					}
					m[p+k] = x
				}
			}
			put(tx, over)
			if h.r.Intn(3) == 0 {
				tx2, err := views[p].NewTx()
				h.check(err == nil, "%v", err)
				o2 := model{}
				put(tx2, o2)
				tx.Add(tx2)
				for k, x := range o2 {
					over[k] = x
				}
				for _, k := range keys {
					x, err := tx2.Get([]byte(k))
					w, ok := o2[p+k]
					if !ok {
						w, ok = stored[p+k]
					}
					h.check((err == nil) == ok && string(x) == w, "merged transaction reads %q: %q want %q", k, x, w)
				}
			}
			for _, k := range keys {
				x, err := tx.Get([]byte(k))
				w, ok := over[p+k]
				if !ok {
					w, ok = stored[p+k]
				}
				h.check((err == nil) == ok && (ok || err == ErrNotFound) && string(x) == w, "transaction of view %q reads %q: %q %v, want %q", p, k, x, err, w)
			}
			q := prefixes[h.r.Intn(len(prefixes))]
			h.view(views[q], q, stored, keys) // nothing visible yet
			if h.r.Intn(4) > 0 {
				h.check(tx.Commit() == nil, "commit")
				for k, x := range over {
					stored[k] = x
				}
			} else {
				tx.Close()
			}
			for _, q := range prefixes {
				h.view(views[q], q, stored, keys)
			}
		}
		h.sample("dir %q: %d pairs", dir, len(stored))
		s.Close()
		if dir != "" {
			s, err := NewLevelDbStorage(dir, true)
			h.check(err == nil, "reopen: %v", err)
			for _, q := range prefixes {
				h.view(s.WithPrefix([]byte(q)), q, stored, keys)
			}
			s.Close()
			os.RemoveAll(dir)
		}
	}
	h.done()
}
