package claims

import (
	"math/big"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
)

func TestVerifC07(t *testing.T) {
	h := vstart(t, 207)
	for h.more(1000, 100000) {
		d := h.anyData()
		if h.r.Intn(4) == 0 {
			x := refQ
			if h.r.Intn(2) == 0 {
				x = new(big.Int).Sub(refQ, big.NewInt(1))
			}
			b := x.Bytes()
			i := 1 + h.r.Intn(7)
			for k := range b {
				d[i][31-k] = b[k]
			}
		}
		e := &merkletree.Entry{Data: d}
		in := e.Bytes()
		h.quiet(func() string { return "entry " + hx(in) }, func() {
			c, err := NewClaimFromEntry(e)
			known := refInt(d[0][:7]).Sign() == 0 && d[0][7] < 3
			if !inField(d) {
				h.check(err != nil, "entry %s outside the field is parsed", hx(in))
			} else if known {
				h.check(err == nil && c != nil, "entry %s inside the field is refused: %v", hx(in), err)
			} else {
				h.check(err == ErrInvalidClaimType, "entry %s of unknown type: error %v", hx(in), err)
			}
			h.check(e.Data == d, "parsing changed entry %s", hx(in))
		})
		h.sample("entry %x", in)
	}
	h.done()
}
