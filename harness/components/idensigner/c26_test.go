package idensigner

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func TestVerifC26(t *testing.T) {
	h := vstart(t, 126)
	st := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&st, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	h.check(err == nil, "%v", err)
	var sk babyjub.PrivateKey
	copy(sk[:], h.bytes(32))
	pk, err := ks.ImportKey(sk, []byte("p"))
	h.check(err == nil && ks.UnlockKey(pk, []byte("p")) == nil, "%v", err)
	s := New(ks, *sk.Public())
	for h.more(30, 3000) {
		n := h.r.Intn(120)
		buf := h.bytes(n + 40)
		b0 := append([]byte{}, buf...)
		msg := buf[:n]
		sig, err := s.SignEthMsg(msg)
		h.check(err == nil, "%v", err)
		ok, err := keystore.VerifySignatureRaw(pk, sig, b0[:n])
		h.check(ok && err == nil, "own signature refused")
		sig, date, err := s.SignEthMsgDate(msg)
		h.check(err == nil, "%v", err)
		var d [8]byte
		binary.BigEndian.PutUint64(d[:], uint64(date))
		ok, err = keystore.VerifySignatureRaw(pk, sig, append(append([]byte{}, b0[:n]...), d[:]...))
		h.check(ok && err == nil, "own dated signature refused")
		h.check(bytes.Equal(buf, b0), "the message's memory was changed")
		h.sample("message of %d bytes date %d", n, date)
	}
	h.done()
}
