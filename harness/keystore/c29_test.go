package keystore

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"github.com/iden3/go-iden3-crypto/babyjub"
)

type failing struct {
	MemStorage
	fail bool
}

func (s *failing) Write(b []byte) error {
	if s.fail {
		return errors.New("write failure")
	}
	return s.MemStorage.Write(b)
}

// all operations at once, some of them failing; afterwards the store still answers
func TestVerifC29(t *testing.T) {
	h := vstart(t, 29)
	for h.more(2, 100) {
		st := &failing{MemStorage: MemStorage{}}
		ks, err := NewKeyStore(st, KeyStoreParams{ScryptN: 2, ScryptP: 1})
		h.check(err == nil, "new: %v", err)
		var sks [4]babyjub.PrivateKey
		var pks [4]*babyjub.PublicKeyComp
		for i := range sks {
			h.r.Read(sks[i][:])
			c := sks[i].Public().Compress()
			pks[i] = &c
		}
		h.together("key store", 5, 25, func(r *rand.Rand, w, s int) { anyCall(h, ks, sks, pks, r) })
		h.within("a failing import", func() {
			st.fail = true
			_, err := ks.ImportKey(sks[0], []byte("other"))
			h.check(err != nil, "an import that was not stored is reported as done")
			st.fail = false
			h.check(ks.UnlockKey(&babyjub.PublicKeyComp{1}, nil) != nil, "an unknown key was unlocked")
			_, err = ks.ExportKey(&babyjub.PublicKeyComp{1})
			h.check(err != nil, "an unknown key was exported")
			ks.ImportKey(sks[0], []byte("pass0")) //nolint:errcheck
			h.check(ks.UnlockKey(pks[0], []byte("wrong")) != nil, "a wrong passphrase was accepted")
			h.check(ks.UnlockKey(pks[0], []byte("pass0")) == nil, "the passphrase was refused")
		})
		h.together("closing a key store", 3, 4, func(r *rand.Rand, w, s int) {
			if w == 0 {
				ks.Close() //nolint:errcheck
				return
			}
			anyCall(h, ks, sks, pks, r)
		})
		h.within("key store afterwards", func() { ks.Keys() })
		h.sample("5 callers, 25 calls each")
	}
	h.done()
}

func anyCall(h *vh, ks *KeyStore, sks [4]babyjub.PrivateKey, pks [4]*babyjub.PublicKeyComp, r *rand.Rand) {
	i := r.Intn(4)
	pass := []byte(fmt.Sprintf("pass%d", i))
	if r.Intn(4) == 0 {
		pass = []byte("wrong")
	}
	switch r.Intn(7) {
	case 0:
		ks.ImportKey(sks[i], []byte(fmt.Sprintf("pass%d", i))) //nolint:errcheck
	case 1:
		ks.UnlockKey(pks[i], pass) //nolint:errcheck
	case 2:
		ks.ExportKey(pks[i]) //nolint:errcheck
	case 3:
		ks.SignElem(pks[i], big.NewInt(7)) //nolint:errcheck
	case 4:
		ks.SignRaw(pks[i], pass) //nolint:errcheck
	case 5:
		ks.Sign(pks[i], PrefixType{1}, pass) //nolint:errcheck
	case 6:
		for _, k := range ks.Keys() {
			found := false
			for _, p := range pks {
				found = found || k == *p
			}
			h.check(found, "a key that was not stored is listed")
		}
	}
}
