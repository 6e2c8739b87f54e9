package keystore

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

type flaky struct {
	MemStorage
	fail bool
}

func (f *flaky) Write(b []byte) error {
	if f.fail {
		return errors.New("injected failure")
	}
	return f.MemStorage.Write(append([]byte{}, b...))
}

func (h *vh) spare(b []byte) []byte {
	c := make([]byte, len(b), len(b)+40)
	copy(c, b)
	full := c[:cap(c)]
	for i := len(b); i < len(full); i++ {
		full[i] = 0xee
	}
	return c
}

func spareOK(c []byte) bool {
	for _, x := range c[len(c):cap(c)] {
		if x != 0xee {
			return false
		}
	}
	return true
}

func TestVerifC24(t *testing.T) {
	h := vstart(t, 24)
	params := KeyStoreParams{ScryptN: 2, ScryptP: 1}
	dir, err := ioutil.TempDir("", "verifc24")
	h.check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	for h.more(25, 2000) {
		var st Storage
		fl := &flaky{}
		st = fl
		onDisk := h.r.Intn(3) == 0
		file := filepath.Join(dir, "ks")
		if onDisk {
			os.Remove(file)
			st = NewFileStorage(file)
		}
		ks, err := NewKeyStore(st, params)
		h.check(err == nil, "new key store: %v", err)
		type key struct {
			sk   babyjub.PrivateKey
			pass []byte
			open bool
		}
		keys := map[babyjub.PublicKeyComp]*key{}
		var pks []babyjub.PublicKeyComp
		log := ""
		for i := 0; i < 12; i++ {
			var pk babyjub.PublicKeyComp
			var k *key
			if len(pks) > 0 && h.r.Intn(8) > 0 {
				pk = pks[h.r.Intn(len(pks))]
				k = keys[pk]
			} else {
				copy(pk[:], h.bytes(32))
			}
			switch h.r.Intn(7) {
			case 0, 1:
				var sk babyjub.PrivateKey
				copy(sk[:], h.bytes(32))
				pass := append(h.bytes(h.r.Intn(12)), 'p') // scrypt ignores trailing zero bytes
				fl.fail = h.r.Intn(5) == 0
				r, err := ks.ImportKey(sk, pass)
				log += " import"
				want := sk.Public().Compress()
				if fl.fail && !onDisk {
					h.check(err != nil, "import reported although nothing was stored")
				} else {
					h.check(err == nil && *r == want, "import: %v", err)
				}
				fl.fail = false
				if err == nil {
					if keys[want] == nil {
						pks = append(pks, want)
						keys[want] = &key{}
					}
					keys[want].sk, keys[want].pass = sk, pass
					raw, err := st.Read()
					h.check(err == nil && !bytes.Contains(raw, []byte(babyjub.SkToBigInt(&sk).String())), "read back: %v", err)
				}
			case 2:
				pass := append(h.bytes(h.r.Intn(12)), 'p') // scrypt ignores trailing zero bytes
				if k != nil && h.r.Intn(2) == 0 {
					pass = k.pass
				}
				err := ks.UnlockKey(&pk, pass)
				log += " unlock"
				h.check((err == nil) == (k != nil && bytes.Equal(pass, k.pass)), "unlock with %x: %v", pass, err)
				if err == nil {
					k.open = true
				}
			case 3:
				sk, err := ks.ExportKey(&pk)
				h.check((err == nil) == (k != nil && k.open) && (err != nil || *sk == k.sk), "export: %v", err)
			default:
				prefix, msg := h.spare(h.bytes(h.r.Intn(20))), h.spare(h.bytes(h.r.Intn(100)))
				p0, m0 := append([]byte{}, prefix...), append([]byte{}, msg...)
				t0 := time.Now().Unix()
				sig, date, err := ks.Sign(&pk, prefix, msg)
				log += " sign"
				h.check((err == nil) == (k != nil && k.open), "sign with a key (stored %v, unlocked %v): %v", k != nil, k != nil && k.open, err)
				h.check(bytes.Equal(prefix, p0) && bytes.Equal(msg, m0) && spareOK(prefix) && spareOK(msg), "signing changed prefix %x or message %x", p0, m0)
				if err != nil {
					continue
				}
				h.check(date >= t0 && date <= time.Now().Unix(), "date %d", date)
				var d [8]byte
				binary.BigEndian.PutUint64(d[:], uint64(date))
				flat := append(append(append([]byte{}, prefix...), d[:]...), msg...)
				want := k.sk.SignPoseidon(poseidon.HashBytes(flat)).Compress()
				h.check(*sig == want, "signature of prefix %x date %d message %x", prefix, date, msg)
				ok, err := VerifySignature(&pk, sig, prefix, date, msg)
				h.check(ok && err == nil, "own signature refused: %v", err)
				ok, _ = VerifySignatureRaw(&pk, sig, flat)
				h.check(ok, "own signature refused over the flat message")
				ok, _ = VerifySignatureElem(&pk, poseidon.HashBytes(flat), sig)
				h.check(ok, "own signature refused over the digest")
				h.check(bytes.Equal(prefix, p0) && bytes.Equal(msg, m0) && spareOK(prefix) && spareOK(msg), "verifying changed prefix %x or message %x", p0, m0)
				ok, _ = VerifySignature(&pk, sig, prefix, date+1, msg)
				h.check(!ok, "accepted for another date")
				ok, _ = VerifySignature(&pk, sig, prefix, date, append(append([]byte{}, msg...), 1))
				h.check(!ok, "accepted for another message")
				ok, _ = VerifySignature(&pk, sig, append([]byte{1}, prefix...), date, msg)
				h.check(!ok, "accepted for another prefix")
				bad := *sig
				bad[h.r.Intn(64)] ^= 1 << uint(h.r.Intn(8))
				ok, _ = VerifySignature(&pk, &bad, prefix, date, msg)
				h.check(!ok, "accepted a changed signature")
				other := babyjub.NewRandPrivKey()
				opk := other.Public().Compress()
				ok, _ = VerifySignature(&opk, sig, prefix, date, msg)
				h.check(!ok, "accepted for another key")
				e := new(big.Int).SetBytes(h.bytes(31))
				se, err := ks.SignElem(&pk, e)
				h.check(err == nil && *se == k.sk.SignPoseidon(e).Compress(), "element signature %v", err)
			}
		}
		h.check(len(ks.Keys()) == len(keys), "%d keys listed of %d", len(ks.Keys()), len(keys))
		h.sample("%s", log)
		// what was reported as imported is there after reopening; nothing is unlocked
		h.check(ks.Close() == nil, "close")
		if onDisk {
			first, third := st, NewFileStorage(file)
			second := NewFileStorage(file)
			ok, err := second.TryLock()
			h.check(ok && err == nil, "lock after close: %v", err)
			first.Unlock() // a second close
			ok, _ = third.TryLock()
			h.check(!ok, "two storages hold the same file")
			h.check(second.Unlock() == nil, "unlock")
		}
		if len(pks) > 0 {
			_, err = ks.SignElem(&pks[0], big.NewInt(1))
			h.check(err != nil, "a closed key store signs")
		}
		if onDisk {
			st = NewFileStorage(file)
		}
		ks, err = NewKeyStore(st, params)
		h.check(err == nil, "reopen: %v", err)
		for _, pk := range ks.Keys() {
			pk := pk
			_, err := ks.SignElem(&pk, big.NewInt(1))
			h.check(err != nil, "key unlocked after reopening")
			h.check(ks.UnlockKey(&pk, keys[pk].pass) == nil, "stored key does not unlock")
			sk, err := ks.ExportKey(&pk)
			h.check(err == nil && *sk == keys[pk].sk, "another key after reopening: %v", err)
		}
		ks.Close()
		// encryption
		data, pass := h.bytes(h.r.Intn(60)), append(h.bytes(h.r.Intn(20)), 'p')
		e, err := EncryptData(data, pass, 2, 1)
		h.check(err == nil, "encrypt: %v", err)
		d, err := DecryptData(e, pass)
		h.check(err == nil && bytes.Equal(d, data), "decrypted %x of %x: %v", d, data, err)
		_, err = DecryptData(e, append(pass, 'x'))
		h.check(err != nil, "another passphrase accepted")
		e.EncryptedData[h.r.Intn(len(e.EncryptedData))] ^= 1
		_, err = DecryptData(e, pass)
		h.check(err != nil, "tampered data accepted")
	}
	h.done()
}
