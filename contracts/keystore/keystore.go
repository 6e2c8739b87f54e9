package keystore

import (
	"crypto/sha256"
	"errors"
	"math/big"
	"os"

	"github.com/gofrs/flock"
	"github.com/iden3/go-iden3-crypto/babyjub"

	v "github.com/iden3/go-iden3-core/zzverif"
)

// ---- assumed functions: hashing, signing, key derivation and authenticated encryption are
// fixed functions of exactly their inputs; different inputs of the hash and of the key
// derivation give different results, and a box opens only with the key, nonce and content it
// was made with.

func specDigest(a, b []byte) [32]byte {
	x, y := sha256.Sum256(a), sha256.Sum256(b)
	return sha256.Sum256(append(append([]byte{}, x[:]...), y[:]...))
}

//verif:stub target=github.com/iden3/go-iden3-crypto/poseidon.HashBytes
func stub_HashBytes(msg []byte) *big.Int {
	h := sha256.Sum256(msg)
	return new(big.Int).SetBytes(h[:])
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.PrivateKey).SignPoseidon
func stub_SignPoseidon(k *babyjub.PrivateKey, msg *big.Int) *babyjub.Signature {
	return &babyjub.Signature{R8: &babyjub.Point{X: new(big.Int).SetBytes(k[:]), Y: new(big.Int)}, S: new(big.Int).Set(msg)}
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.Signature).Compress
func stub_SigCompress(s *babyjub.Signature) babyjub.SignatureComp {
	var c babyjub.SignatureComp
	s.R8.X.FillBytes(c[:32])
	s.S.FillBytes(c[32:])
	return c
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.Signature).Decompress
func stub_SigDecompress(s *babyjub.Signature, c [64]byte) (*babyjub.Signature, error) {
	h := sha256.Sum256(c[:])
	if h[1] == 0 {
		return nil, errors.New("not a point")
	}
	s.R8 = &babyjub.Point{X: new(big.Int).SetBytes(c[:32]), Y: new(big.Int)}
	s.S = new(big.Int).SetBytes(c[32:])
	return s, nil
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.Point).Decompress
func stub_PointDecompress(p *babyjub.Point, c [32]byte) (*babyjub.Point, error) {
	h := sha256.Sum256(c[:])
	if h[1] == 0 {
		return nil, errors.New("not a point")
	}
	p.X, p.Y = new(big.Int).SetBytes(c[:]), new(big.Int)
	return p, nil
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.PublicKey).VerifyPoseidon
func stub_VerifyPoseidon(pk *babyjub.PublicKey, msg *big.Int, sig *babyjub.Signature) bool {
	var b [128]byte
	pk.X.FillBytes(b[:32])
	msg.FillBytes(b[32:64])
	sig.R8.X.FillBytes(b[64:96])
	sig.S.FillBytes(b[96:])
	h := sha256.Sum256(b[:])
	return h[0] == 1
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.PrivateKey).Public
func stub_Public(k *babyjub.PrivateKey) *babyjub.PublicKey {
	h := sha256.Sum256(k[:])
	return &babyjub.PublicKey{X: new(big.Int).SetBytes(h[:]), Y: new(big.Int)}
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.PublicKey).Compress
func stub_PubCompress(pk *babyjub.PublicKey) babyjub.PublicKeyComp {
	var c babyjub.PublicKeyComp
	pk.X.FillBytes(c[:])
	return c
}

//verif:stub target=io.ReadFull
func stub_ReadFull(r interface{}, buf []byte) (int, error) {
	b := v.AnyBytes("random")
	v.Requires(len(b) == len(buf))
	copy(buf, b)
	return len(buf), nil
}

func specKDF(pass, salt []byte, n, p int) [32]byte {
	h := specDigest(pass, salt)
	var b [48]byte
	copy(b[:], h[:])
	for i := 0; i < 8; i++ {
		b[32+i] = byte(uint64(n) >> uint(8*i))
		b[40+i] = byte(uint64(p) >> uint(8*i))
	}
	return sha256.Sum256(b[:])
}

func specKDFOK(n, p int) bool { return n > 1 && n&(n-1) == 0 && p > 0 && p < 1<<20 && n < 1<<40 }

//verif:stub target=golang.org/x/crypto/scrypt.Key
func stub_scrypt(pass, salt []byte, n, r, p, l int) ([]byte, error) {
	v.Assert("the parameters of the key derivation", r == 8 && l == 32)
	if !specKDFOK(n, p) {
		return nil, errors.New("scrypt: parameters")
	}
	h := specKDF(pass, salt, n, p)
	return append([]byte{}, h[:]...), nil
}

func specTag(msg []byte, nonce *[24]byte, key *[32]byte) [32]byte {
	b := append(append([]byte{}, key[:]...), nonce[:]...)
	return sha256.Sum256(append(b, msg...))
}

//verif:stub target=golang.org/x/crypto/nacl/secretbox.Seal
func stub_Seal(out, msg []byte, nonce *[24]byte, key *[32]byte) []byte {
	t := specTag(msg, nonce, key)
	return append(append(append([]byte{}, out...), t[:]...), msg...)
}

//verif:stub target=golang.org/x/crypto/nacl/secretbox.Open
func stub_Open(out, box []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	if len(box) < 32 {
		return nil, false
	}
	t := specTag(box[32:], nonce, key)
	if !v.BytesEq(box[:32], t[:]) {
		return nil, false
	}
	return append(append([]byte{}, out...), box[32:]...), true
}

// ---- specifications

func specCat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// prefix, date in eight big-endian bytes, message
func specLayout(prefix []byte, date int64, raw []byte) []byte {
	var d [8]byte
	for i := 0; i < 8; i++ {
		d[i] = byte(uint64(date) >> uint(56-8*i))
	}
	return specCat(specCat(prefix, d[:]), raw)
}

func specSignature(sk [32]byte, h *big.Int) babyjub.SignatureComp {
	var c babyjub.SignatureComp
	copy(c[:32], sk[:])
	h.FillBytes(c[32:])
	return c
}

// pk is the public key of sk
func specPub(sk [32]byte) [32]byte { return sha256.Sum256(sk[:]) }

func specValid(n [32]byte) bool {
	h := sha256.Sum256(n[:])
	return h[1] != 0
}

func specVerifies(pk [32]byte, h *big.Int, sig [64]byte) bool {
	hs := sha256.Sum256(sig[:])
	var b [128]byte
	copy(b[:32], pk[:])
	h.FillBytes(b[32:64])
	copy(b[64:], sig[:])
	r := sha256.Sum256(b[:])
	return specValid(pk) && hs[1] != 0 && r[0] == 1
}

// ---- layout, signing, verification

//verif:contract prop=C24 target=prefixDateMsg spare
func vc_prefixDateMsg(prefix PrefixType, date int64, raw []byte) {
	m := prefixDateMsg(prefix, date, raw)
	v.Ensures("prefix, date, message", v.BytesEq(m, specLayout(prefix, date, raw)))
}

// A key store in which one arbitrary key is tracked; any other key may be unlocked or stored.
func specKS(pk [32]byte, sk *babyjub.PrivateKey, other *babyjub.PrivateKey, unlocked bool, keys KeysStored) *KeyStore {
	m := make(map[babyjub.PublicKeyComp]*babyjub.PrivateKey)
	v.AnyRest(m, other)
	m[pk] = sk
	if !unlocked {
		delete(m, pk)
	}
	ks := &KeyStore{cache: m, encryptedKeys: keys}
	v.Guarded(&ks.rw, "keys", m, keys)
	return ks
}

func specCached(ks *KeyStore, pk [32]byte) *babyjub.PrivateKey {
	sk, ok := ks.cache[pk]
	if !ok {
		return nil
	}
	return sk
}

//verif:contract prop=C24,C29 target=KeyStore.SignElem
func vc_SignElem(pk *babyjub.PublicKeyComp, sk, other *babyjub.PrivateKey, unlocked bool, keys KeysStored, msg *big.Int) {
	v.Requires(msg.Sign() >= 0 && msg.BitLen() <= 256)
	ks := specKS(*pk, sk, other, unlocked, keys)
	sig, err := ks.SignElem(pk, msg)
	v.Ensures("signs exactly when the key is unlocked", (err == nil) == unlocked && (sig != nil) == unlocked)
	if unlocked {
		v.Ensures("with that key and that message", *sig == specSignature(*sk, msg))
	} else {
		v.Ensures("says so", err == ErrKeyNotInCache)
	}
}

//verif:contract prop=C24,C29 target=KeyStore.SignRaw
func vc_SignRaw(pk *babyjub.PublicKeyComp, sk, other *babyjub.PrivateKey, unlocked bool, keys KeysStored, msg []byte) {
	ks := specKS(*pk, sk, other, unlocked, keys)
	sig, err := ks.SignRaw(pk, msg)
	v.Ensures("signs exactly when the key is unlocked", (err == nil) == unlocked && (sig != nil) == unlocked)
	if unlocked {
		v.Ensures("with that key, the digest of that message", *sig == specSignature(*sk, stub_HashBytes(msg)))
	}
}

//verif:contract prop=C24,C29 target=KeyStore.Sign
func vc_Sign(pk *babyjub.PublicKeyComp, sk, other *babyjub.PrivateKey, unlocked bool, keys KeysStored, prefix PrefixType, raw []byte) {
	ks := specKS(*pk, sk, other, unlocked, keys)
	sig, date, err := ks.Sign(pk, prefix, raw)
	v.Ensures("signs exactly when the key is unlocked", (err == nil) == unlocked && (sig != nil) == unlocked)
	if unlocked {
		v.Ensures("the digest of prefix, the date returned and message", *sig == specSignature(*sk, stub_HashBytes(specLayout(prefix, date, raw))))
	}
}

//verif:contract prop=C24 target=VerifySignatureElem
func vc_VerifyElem(pk *babyjub.PublicKeyComp, msg *big.Int, sig *babyjub.SignatureComp) {
	v.Requires(msg.Sign() >= 0 && msg.BitLen() <= 256)
	ok, err := VerifySignatureElem(pk, msg, sig)
	v.Ensures("accepts exactly the valid signatures", (err == nil && ok) == specVerifies(*pk, msg, *sig))
}

//verif:contract prop=C24 target=VerifySignatureRaw
func vc_VerifyRaw(pk *babyjub.PublicKeyComp, sig *babyjub.SignatureComp, msg []byte) {
	ok, err := VerifySignatureRaw(pk, sig, msg)
	v.Ensures("accepts exactly the valid signatures of the digest", (err == nil && ok) == specVerifies(*pk, stub_HashBytes(msg), *sig))
}

//verif:contract prop=C24 target=VerifySignature
func vc_Verify(pk *babyjub.PublicKeyComp, sig *babyjub.SignatureComp, prefix PrefixType, date int64, raw []byte) {
	ok, err := VerifySignature(pk, sig, prefix, date, raw)
	v.Ensures("accepts exactly the valid signatures of that layout", (err == nil && ok) == specVerifies(*pk, stub_HashBytes(specLayout(prefix, date, raw)), *sig))
}

// ---- encryption

// what the encrypted data holds for that passphrase
func specOpen(e *EncryptedData, pass []byte) ([]byte, bool) {
	if !specKDFOK(e.ScryptN, e.ScryptP) {
		return nil, false
	}
	key := specKDF(pass, e.Salt, e.ScryptN, e.ScryptP)
	var nonce [24]byte
	copy(nonce[:], e.Nonce)
	if len(e.EncryptedData) < 32 {
		return nil, false
	}
	t := specTag(e.EncryptedData[32:], &nonce, &key)
	return e.EncryptedData[32:], v.BytesEq(e.EncryptedData[:32], t[:])
}

//verif:contract prop=C24 target=DecryptData
func vc_Decrypt(e *EncryptedData, pass []byte) {
	w, ok := specOpen(e, pass)
	d, err := DecryptData(e, pass)
	v.Ensures("opens exactly what was sealed under that passphrase", (err == nil) == ok)
	v.Ensures("and gives what was sealed", !ok || v.BytesEq(d, w))
}

//verif:contract prop=C24 target=EncryptData
func vc_EncryptDecrypt(data, pass, pass2 []byte, n, p int) {
	e, err := EncryptData(data, pass, n, p)
	v.Ensures("fails only for bad parameters", (err == nil) == specKDFOK(n, p))
	if err == nil {
		d, err2 := DecryptData(e, pass2)
		v.Ensures("the same passphrase gives back the data", !v.BytesEq(pass, pass2) || err2 == nil && v.BytesEq(d, data))
		v.Ensures("another passphrase is refused", v.BytesEq(pass, pass2) || err2 != nil)
		v.Cover("encrypted")
	}
}

//verif:contract prop=C24,C29 target=KeyStore.UnlockKey
func vc_UnlockKey(pk *babyjub.PublicKeyComp, sk, other *babyjub.PrivateKey, unlocked bool, keys KeysStored, pass []byte, pk2 *babyjub.PublicKeyComp) {
	ks := specKS(*pk, sk, other, unlocked, keys)
	e, stored := keys[*pk]
	was := specCached(ks, *pk)
	good := false
	var key [32]byte
	if stored {
		d, ok := specOpen(&e, pass)
		if ok && len(d) == 32 {
			copy(key[:], d)
			good = specPub(key) == *pk
		}
	}
	v.Modifies(ks.cache)
	err := ks.UnlockKey(pk, pass)
	now := specCached(ks, *pk)
	v.Ensures("unlocked exactly when the passphrase opens the stored key and it is that key", (err == nil) == good)
	if err == nil {
		v.Ensures("the key that was stored", now != nil && *now == key)
		v.Cover("unlocked")
	} else {
		v.Ensures("nothing is unlocked", now == was)
	}
}

//verif:contract prop=C24,C29 target=KeyStore.ExportKey
func vc_ExportKey(pk *babyjub.PublicKeyComp, sk, other *babyjub.PrivateKey, unlocked bool, keys KeysStored) {
	ks := specKS(*pk, sk, other, unlocked, keys)
	r, err := ks.ExportKey(pk)
	v.Ensures("only an unlocked key leaves the store", (err == nil) == unlocked && (!unlocked || r == sk))
}

//verif:stub target=github.com/iden3/go-iden3-crypto/babyjub.NewPoint
func stub_NewPoint() *babyjub.Point { return &babyjub.Point{X: new(big.Int), Y: new(big.Int)} }

// ---- importing

// the stored keys hold key sk, sealed under pass
func specHolds(m KeysStored, sk [32]byte, pass []byte) bool {
	e, ok := m[specPub(sk)]
	d, ok2 := specOpen(&e, pass)
	return ok && ok2 && v.BytesEq(d, sk[:])
}

//verif:stub target=encoding/json.Marshal
func stub_Marshal(x interface{}, sk babyjub.PrivateKey, pass []byte) ([]byte, error) {
	if v.AnyBool("not encodable") {
		return nil, errors.New("encoding failure")
	}
	v.SetGhost("encoded", 0)
	if specHolds(x.(KeysStored), sk, pass) {
		v.SetGhost("encoded", 1)
	}
	return v.AnyBytes("json"), nil
}

// a storage any step of which may fail
type absStorage struct{ x int }

func (s *absStorage) Read() ([]byte, error)  { panic("not used") }
func (s *absStorage) TryLock() (bool, error) { panic("not used") }
func (s *absStorage) Unlock() error {
	v.SetGhost("released", v.Ghost("released")+1)
	if v.AnyBool("unlock fails") {
		return errors.New("unlock failure")
	}
	return nil
}
func (s *absStorage) Write(b []byte) error {
	if v.AnyBool("write fails") {
		return errors.New("write failure")
	}
	v.SetGhost("written", v.Ghost("encoded"))
	return nil
}

func specSameEnc(a, b *EncryptedData) bool {
	return a.ScryptN == b.ScryptN && a.ScryptP == b.ScryptP && v.BytesEq(a.Salt, b.Salt) && v.BytesEq(a.Nonce, b.Nonce) && v.BytesEq(a.EncryptedData, b.EncryptedData)
}

//verif:contract prop=C24,C29 target=KeyStore.ImportKey
func vc_ImportKey(pk, pk2 *babyjub.PublicKeyComp, unlocked bool, cached, other *babyjub.PrivateKey, keys KeysStored, sk babyjub.PrivateKey, pass []byte, n, p int) {
	v.Requires(*pk == specPub(sk) && *pk2 != *pk)
	ks := specKS(*pk, cached, other, unlocked, keys)
	ks.storage = &absStorage{}
	ks.params = KeyStoreParams{n, p}
	e1, ok1 := keys[*pk]
	e2, ok2 := keys[*pk2]
	v.SetGhost("encoded", 0)
	v.SetGhost("written", 0)
	v.Modifies(keys)
	r, err := ks.ImportKey(sk, pass)
	f2, now2 := keys[*pk2]
	v.Ensures("a public key or an error", (err == nil) == (r != nil))
	v.Ensures("other keys stay", ok2 == now2 && (!ok2 || specSameEnc(&e2, &f2)))
	if err == nil {
		v.Ensures("its public key", *r == *pk)
		v.Ensures("stored, sealed under the passphrase, before it is reported", v.Ghost("written") == 1)
		v.Ensures("and held", specHolds(keys, sk, pass))
		v.Cover("imported")
	} else {
		f1, now1 := keys[*pk]
		v.Ensures("a key that is not stored is not held", ok1 == now1 && (!ok1 || specSameEnc(&e1, &f1)))
	}
}

// ---- closing, the storage lock

//verif:inv target=KeyStore.Close
func inv_Close(ks *KeyStore) bool { return true }

//verif:contract prop=C24,C29 target=KeyStore.Close
func vc_Close(pk *babyjub.PublicKeyComp, sk, other *babyjub.PrivateKey, unlocked bool, keys KeysStored) {
	ks := specKS(*pk, sk, other, unlocked, keys)
	ks.storage = &absStorage{}
	v.SetGhost("released", 0)
	v.Modifies(ks.cache)
	v.Modifies(sk)
	v.Modifies(other)
	ks.Close()
	v.Ensures("no key stays unlocked", specCached(ks, *pk) == nil)
	v.Ensures("the storage is released, once", v.Ghost("released") == 1)
	v.Cover("closed")
}

// The file lock: held or not held by this storage; taking it may fail, or find it taken.

//verif:stub target=(*github.com/gofrs/flock.Flock).Locked
func stub_Locked(f *flock.Flock) bool {
	_ = *f
	return v.Ghost("held") == 1
}

//verif:stub target=(*github.com/gofrs/flock.Flock).TryLock
func stub_TryLock(f *flock.Flock) (bool, error) {
	*f = *f
	if v.Ghost("held") == 1 {
		return true, nil
	}
	if v.AnyBool("lock fails") {
		return false, errors.New("lock failure")
	}
	if v.AnyBool("lock is taken") {
		return false, nil
	}
	v.SetGhost("held", 1)
	return true, nil
}

//verif:stub target=(*github.com/gofrs/flock.Flock).Unlock
func stub_FUnlock(f *flock.Flock) error {
	*f = *f
	if v.Ghost("held") == 1 && v.AnyBool("unlock fails") {
		return errors.New("unlock failure")
	}
	v.SetGhost("held", 0)
	return nil
}

//verif:stub target=os.Remove
func stub_Remove(name string) error {
	v.SetGhost("removed", v.Ghost("removed")+1)
	if v.AnyBool("remove fails") {
		return errors.New("remove failure")
	}
	return nil
}

//verif:stub target=io/ioutil.ReadFile
func stub_ReadFile(name string) ([]byte, error) {
	v.SetGhost("touched", 1)
	if v.AnyBool("read fails") {
		return nil, errors.New("read failure")
	}
	return v.AnyBytes("file"), nil
}

//verif:stub target=io/ioutil.WriteFile
func stub_WriteFile(name string, data []byte, mode os.FileMode, want string, b []byte) error {
	v.SetGhost("touched", 1)
	v.Assert("the data handed over, to the storage's file", name == want && v.BytesEq(data, b))
	if v.AnyBool("write fails") {
		return errors.New("write failure")
	}
	v.SetGhost("wrote", 1)
	return nil
}

func specFS(want string, held bool) *FileStorage {
	v.SetGhost("held", 0)
	if held {
		v.SetGhost("held", 1)
	}
	v.SetGhost("removed", 0)
	v.SetGhost("touched", 0)
	v.SetGhost("wrote", 0)
	fs := &FileStorage{path: want, lock: &flock.Flock{}}
	v.Guarded(&fs.rw, "file lock", fs.lock)
	return fs
}

//verif:contract prop=C24,C29 target=FileStorage.Unlock
func vc_FSUnlock(want string, held bool) {
	fs := specFS(want, held)
	err := fs.Unlock()
	if !held {
		v.Ensures("the lock file of another store stays", v.Ghost("removed") == 0)
	} else if err == nil {
		v.Ensures("the lock is released and its file removed", v.Ghost("held") == 0 && v.Ghost("removed") == 1)
		v.Cover("unlocked")
	}
}

//verif:contract prop=C24,C29 target=FileStorage.TryLock
func vc_FSTryLock(want string, held bool) {
	fs := specFS(want, held)
	ok, err := fs.TryLock()
	v.Ensures("locked exactly when it says so", (ok && err == nil) == (v.Ghost("held") == 1))
	v.Ensures("no file is removed", v.Ghost("removed") == 0)
}

//verif:contract prop=C24,C29 target=FileStorage.Write
func vc_FSWrite(want string, held bool, b []byte) {
	fs := specFS(want, held)
	err := fs.Write(b)
	v.Ensures("only a locked storage is written", held || err != nil && v.Ghost("touched") == 0)
	v.Ensures("written before it is reported", (err == nil) == (v.Ghost("wrote") == 1))
}

//verif:contract prop=C24,C29 target=FileStorage.Read
func vc_FSRead(want string, held bool) {
	fs := specFS(want, held)
	_, err := fs.Read()
	v.Ensures("only a locked storage is read", held || err != nil && v.Ghost("touched") == 0)
}

// ---- listing

//verif:inv target=KeyStore.Keys
func inv_Keys(ks *KeyStore, keys []babyjub.PublicKeyComp, j int) bool {
	if j < 0 || j >= len(keys) {
		return true
	}
	_, ok := ks.encryptedKeys[keys[j]]
	return ok
}

//verif:contract prop=C24,C29 target=KeyStore.Keys
func vc_Keys(pk *babyjub.PublicKeyComp, sk, other *babyjub.PrivateKey, unlocked bool, keys KeysStored, j int) {
	ks := specKS(*pk, sk, other, unlocked, keys)
	r := ks.Keys()
	v.Requires(0 <= j && j < len(r))
	_, ok := keys[r[j]]
	v.Ensures("only keys that are stored are listed", ok)
	v.Cover("a key")
}
