package merkletree

import (
	"bytes"
	"testing"

	"github.com/iden3/go-iden3-core/common"
)

func (h *vh) hexText(n int) ([]byte, bool) {
	// text for n bytes, sometimes spoiled; the second result says whether it is well formed for exactly n bytes
	t := []byte(hx(h.bytes(n)))
	ok := true
	switch h.r.Intn(6) {
	case 0:
		k := h.r.Intn(n + 1)
		if k > 0 {
			t = t[:len(t)-k]
			ok = false
		}
	case 1:
		t = append(t, h.bytes(1+h.r.Intn(4))...)
		ok = false
	case 2:
		t[h.r.Intn(len(t))] = 'g'
		ok = false
	case 3:
		t = append(t, t[:2]...)
		ok = false
	}
	if h.r.Intn(2) == 0 {
		t = append([]byte("0x"), t...)
	}
	return t, ok
}

func TestVerifC09(t *testing.T) {
	h := vstart(t, 9)
	for h.more(1000, 60000) {
		d := h.data()
		hash := Hash(h.elem())
		h.quiet(func() string { return "hash " + hx(hash[:]) }, func() {
			tx, err := hash.MarshalText()
			h.check(err == nil && string(tx) == "0x"+hx(hash[:]), "hash %x marshals to %s, %v", hash, tx, err)
			var r Hash
			copy(r[:], h.bytes(32))
			err = r.UnmarshalText(tx)
			h.check(err == nil && r == hash, "hash text %s decodes to %x, %v", tx, r, err)
			h.check(hash.Hex() == string(tx), "hash %x prints %s", hash, hash.Hex())
			h.check(HexStringToHash(hash.Hex()) == hash, "HexStringToHash(%s)", tx)
		})
		tx, ok := h.hexText(32)
		h.quiet(func() string { return "hash text " + string(tx) }, func() {
			var r Hash
			err := r.UnmarshalText(tx)
			h.check((err == nil) == ok, "hash text %q: error %v", tx, err)
		})
		h.quiet(func() string { x := d.Bytes(); return "data " + hx(x[:]) }, func() {
			db0 := d.Bytes()
			tx, err := d.MarshalText()
			h.check(err == nil && string(tx) == "0x"+hx(db0[:]), "data %x marshals to %s, %v", db0, tx, err)
			var r Data
			r = h.data()
			err = r.UnmarshalText(tx)
			h.check(err == nil && r == d, "data text %s decodes to %x, %v", tx, r, err)
			e := &Entry{Data: h.data()}
			if h.r.Intn(8) == 0 {
				_, _, _ = e.HiHv()
			}
			et, err := Entry{Data: d}.MarshalText()
			h.check(err == nil && bytes.Equal(et, tx), "entry %x marshals to %s", db0, et)
			err = e.UnmarshalText(et)
			h.check(err == nil && e.Data == d, "entry text %s decodes to %x, %v", et, e.Data, err)
			if h.n%8 == 0 {
				hi, hv, err := e.HiHv()
				whi, _ := refHi(d)
				whv, _ := refHv(d)
				h.check(err == nil && *hi == whi && *hv == whv, "reused entry decoded from %s has stale hashes", et)
			}
		})
		tx2, ok := h.hexText(256)
		h.quiet(func() string { return "data text " + string(tx2) }, func() {
			old := h.data()
			r := old
			err := r.UnmarshalText(tx2)
			h.check((err == nil) == ok, "data text %q: error %v", tx2, err)
			e := &Entry{Data: old}
			if h.r.Intn(8) == 0 {
				_, _, _ = e.HiHv()
			}
			err = e.UnmarshalText(tx2)
			h.check((err == nil) == ok, "entry text %q: error %v", tx2, err)
			if err == nil && h.n%4 == 0 {
				hi, _, err := e.HiHv()
				if w, ok := refHi(e.Data); ok {
					if _, ok := refHv(e.Data); ok {
						h.check(err == nil && *hi == w, "reused entry decoded from %s has stale hashes", tx2)
					}
				}
			}
		})
		_ = common.HexEncode
		h.sample("texts %q %q", tx, tx2[:40])
	}
	h.done()
}
