package verifier

import "testing"

func TestVerifC14(t *testing.T) {
	h := vstart(t, 14)
	acc := 0
	for h.more(300, 20000) {
		c := newChain()
		id := h.id()
		tr := h.trees()
		cr := h.credE(c, id, tr, 10+uint64(h.r.Intn(3)), h.ts())
		what := "nothing"
		for i := h.r.Intn(4); i > 1; i-- {
			what += ", " + h.tamperE(c, cr, tr)
		}
		h.quiet(func() string { return what }, func() {
			want := oExist(c, cr)
			err := New(c).VerifyCredentialExistence(cr)
			h.check((err == nil) == want, "existence credential with %s changed: %v, expected to be accepted: %v", what, err, want)
			if want {
				acc++
			}
		})
	}
	h.check(acc > 20, "only %d credentials accepted", acc)
	h.done()
}
