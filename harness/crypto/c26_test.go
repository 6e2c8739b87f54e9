package crypto

import (
	"bytes"
	"encoding/binary"
	"io/ioutil"
	"os"
	"testing"

	"github.com/ethereum/go-ethereum/accounts"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

func (h *vh) spare(b []byte) []byte {
	c := make([]byte, len(b), len(b)+40)
	copy(c, b)
	full := c[:cap(c)]
	for i := len(b); i < len(full); i++ {
		full[i] = 0xee
	}
	return c
}

func spareOK(c []byte) bool {
	for _, x := range c[len(c):cap(c)] {
		if x != 0xee {
			return false
		}
	}
	return true
}

// independent oracle: go-ethereum's own text hash and recovery
func wantAccept(addr common.Address, sig SignatureEthMsg, msg []byte) bool {
	s := append([]byte{}, sig[:]...)
	s[64] -= 27
	pk, err := crypto.SigToPub(accounts.TextHash(msg), s)
	return err == nil && crypto.PubkeyToAddress(*pk) == addr
}

func TestVerifC26(t *testing.T) {
	h := vstart(t, 26)
	dir, err := ioutil.TempDir("", "verifc26")
	h.check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	ks := keystore.NewKeyStore(dir, 2, 1)
	type id struct {
		addr common.Address
		acc  accounts.Account
	}
	var ids []id
	for i := 0; i < 3; i++ {
		k, err := crypto.ToECDSA(append([]byte{byte(1 + i)}, h.bytes(31)...))
		h.check(err == nil, "%v", err)
		acc, err := ks.ImportECDSA(k, "p")
		h.check(err == nil && ks.Unlock(acc, "p") == nil, "%v", err)
		ids = append(ids, id{crypto.PubkeyToAddress(k.PublicKey), acc})
	}
	lens := []int{0, 1, 9, 10, 11, 92, 99, 100, 101, 992, 999, 1000, 1001}
	for h.more(200, 20000) {
		x := ids[h.r.Intn(len(ids))]
		y := ids[h.r.Intn(len(ids))]
		n := lens[h.r.Intn(len(lens))]
		if h.r.Intn(3) == 0 {
			n = h.r.Intn(300)
		}
		msg := h.spare(h.bytes(n))
		m0 := append([]byte{}, msg...)
		same := func() {
			h.check(bytes.Equal(msg, m0) && spareOK(msg), "the message %x or its memory was changed", m0)
		}
		h.check(bytes.Equal(func() []byte { x := EthHash(msg); return x[:] }(), accounts.TextHash(m0)), "hash of %d bytes", n)
		sig, err := SignEthMsg(ks, x.acc, msg)
		h.check(err == nil, "sign: %v", err)
		same()
		s0 := *sig
		h.check(VerifySigEthMsg(x.addr, sig, msg), "own signature of %d bytes refused", n)
		h.check(VerifySigEthMsg(y.addr, sig, msg) == (x.addr == y.addr), "signature of another address")
		same()
		// dated
		date := int64(h.r.Uint64())
		if h.r.Intn(2) == 0 {
			date = int64(h.r.Intn(1 << 31))
		}
		var d [8]byte
		binary.BigEndian.PutUint64(d[:], uint64(date))
		dated := append(append([]byte{}, m0...), d[:]...)
		dsig, err := SignEthMsg(ks, x.acc, dated)
		h.check(err == nil, "sign: %v", err)
		h.check(VerifySigEthMsgDate(x.addr, dsig, msg, date), "own dated signature refused, date %d", date)
		same()
		h.check(!VerifySigEthMsgDate(x.addr, dsig, msg, date^(1<<uint(h.r.Intn(64)))), "another date accepted")
		h.check(!VerifySigEthMsgDate(x.addr, sig, msg, date), "undated signature accepted with a date")
		h.check(VerifySigEthMsgDate(y.addr, dsig, msg, date) == (x.addr == y.addr), "dated signature of another address")
		h.check(spareOK(msg) && bytes.Equal(msg, m0), "dated verification changed the message's memory")
		// altered
		bad := s0
		bad[h.r.Intn(65)] ^= 1 << uint(h.r.Intn(8))
		if h.r.Intn(3) == 0 {
			copy(bad[:], h.bytes(65))
		}
		for _, v := range []byte{bad[64], 27, 28, 0, 1, 26, 29, 30, 31, 255} {
			bad[64] = v
			var got bool
			b0 := bad
			h.quiet(func() string { return "VerifySigEthMsg" }, func() { got = VerifySigEthMsg(x.addr, &bad, msg) })
			h.check(got == wantAccept(x.addr, b0, m0), "signature %x: accepted %v", b0, got)
			h.check(bad == b0, "the signature was changed")
			r := b0
			r[64] = v - 27
			raw := Signature(r)
			hash := accounts.TextHash(m0)
			h.quiet(func() string { return "VerifySig" }, func() { got = VerifySig(x.addr, &raw, hash) })
			h.check(got == wantAccept(x.addr, b0, m0) && raw == Signature(r), "raw signature %x: accepted %v", r, got)
			h.quiet(func() string { return "VerifySig" }, func() { got = VerifySig(x.addr, &raw, hash[:h.r.Intn(32)]) })
			h.check(!got, "a short hash was accepted")
		}
		h.check(*sig == s0, "the signature was changed")
		if n > 0 {
			msg[h.r.Intn(n)] ^= 1 << uint(h.r.Intn(8))
			h.check(!VerifySigEthMsg(x.addr, sig, msg), "another message accepted")
		}
		h.sample("address %x message of %d bytes date %d", x.addr, n, date)
	}
	h.done()
}
