package crypto

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"errors"
	"math/big"
	"strconv"

	"github.com/ethereum/go-ethereum/accounts"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"

	v "github.com/iden3/go-iden3-core/zzverif"
)

// ---- assumed functions: Keccak-256 and the recovery of the public key from a signature are
// fixed functions of exactly their inputs; a key that was recovered is a valid key.

//verif:stub target=github.com/ethereum/go-ethereum/crypto.Keccak256
func stub_Keccak256(data ...[]byte) []byte {
	var all []byte
	for _, b := range data {
		all = append(all, b...)
	}
	h := sha256.Sum256(all)
	return h[:]
}

// the point recovered for that hash and signature
func specPoint(hash, sig []byte) (h [32]byte) {
	var b [97]byte
	copy(b[:32], hash)
	copy(b[32:], sig)
	return sha256.Sum256(b[:])
}

func specRecovers(hash, sig []byte) bool {
	if len(hash) != 32 || len(sig) != 65 || sig[64] >= 4 {
		return false
	}
	h := specPoint(hash, sig)
	return h[0]&1 == 0
}

//verif:stub target=github.com/ethereum/go-ethereum/crypto.Ecrecover
func stub_Ecrecover(hash, sig []byte) ([]byte, error) {
	if !specRecovers(hash, sig) {
		return nil, errors.New("recovery failed")
	}
	h := specPoint(hash, sig)
	y := sha256.Sum256(h[:])
	return append(append([]byte{4}, h[:]...), y[:]...), nil
}

//verif:stub target=github.com/ethereum/go-ethereum/crypto.UnmarshalPubkey
func stub_UnmarshalPubkey(pub []byte) (*ecdsa.PublicKey, error) {
	if len(pub) != 65 || pub[0] != 4 {
		return nil, errors.New("not a key")
	}
	y := sha256.Sum256(pub[1:33])
	if !v.BytesEq(y[:], pub[33:]) {
		return nil, errors.New("not a point")
	}
	return &ecdsa.PublicKey{X: new(big.Int).SetBytes(pub[1:33]), Y: new(big.Int).SetBytes(pub[33:])}, nil
}

//verif:stub target=github.com/ethereum/go-ethereum/crypto.SigToPub
func stub_SigToPub(hash, sig []byte) (*ecdsa.PublicKey, error) {
	p, err := stub_Ecrecover(hash, sig)
	if err != nil {
		return nil, err
	}
	return stub_UnmarshalPubkey(p)
}

//verif:stub target=github.com/ethereum/go-ethereum/crypto.PubkeyToAddress
func stub_PubkeyToAddress(p ecdsa.PublicKey) common.Address {
	var b [64]byte
	p.X.FillBytes(b[:32])
	p.Y.FillBytes(b[32:])
	h := sha256.Sum256(b[:])
	var a common.Address
	copy(a[:], h[12:])
	return a
}

//verif:stub target=(github.com/ethereum/go-ethereum/common.Address).Bytes
func stub_AddressBytes(a common.Address) []byte { return append([]byte{}, a[:]...) }

// ---- specifications

// the hash of the Ethereum-prefixed message
func specEthHash(msg []byte) [32]byte {
	return sha256.Sum256(append([]byte("\x19Ethereum Signed Message:\n"+strconv.Itoa(len(msg))), msg...))
}

// the address recovered from the signature over that hash is addr
func specSigned(addr common.Address, sig, hash []byte) bool {
	if !specRecovers(hash, sig) {
		return false
	}
	h := specPoint(hash, sig)
	y := sha256.Sum256(h[:])
	a := sha256.Sum256(append(append([]byte{}, h[:]...), y[:]...))
	return v.BytesEq(a[12:], addr[:])
}

// message signatures carry the recovery id plus 27
func specSignedMsg(addr common.Address, sig SignatureEthMsg, msg []byte) bool {
	h := specEthHash(msg)
	sig[64] -= 27
	return specSigned(addr, sig[:], h[:])
}

func specDated(msg []byte, date int64) []byte {
	var d [8]byte
	for i := 0; i < 8; i++ {
		d[i] = byte(uint64(date) >> uint(56-8*i))
	}
	return append(append([]byte{}, msg...), d[:]...)
}

// ---- contracts

//verif:contract prop=C26 target=HashBytes spare
func vc_HashBytes(a, b []byte) {
	h := HashBytes(a, b)
	w := sha256.Sum256(append(append([]byte{}, a...), b...))
	v.Ensures("the hash of the parts in order", h == w)
	h1 := HashBytes(a)
	v.Ensures("of one part", h1 == sha256.Sum256(a))
}

//verif:contract prop=C26 target=EthHash spare
func vc_EthHash(msg []byte) {
	h := EthHash(msg)
	v.Ensures("the hash of prefix, length in decimal and message", h == specEthHash(msg))
}

//verif:contract prop=C26 target=VerifySig
func vc_VerifySig(addr common.Address, sig *Signature, hash []byte) {
	ok := VerifySig(addr, sig, hash)
	v.Ensures("accepts exactly when the address recovered from it is that address", ok == specSigned(addr, sig[:], hash))
	if ok {
		v.Cover("accepted")
	} else {
		v.Cover("refused")
	}
}

//verif:contract prop=C26 target=VerifySigEthMsg spare
func vc_VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) {
	ok := VerifySigEthMsg(addr, sig, msg)
	v.Ensures("accepts exactly the signatures of the prefixed message by that address", ok == specSignedMsg(addr, *sig, msg))
	if ok {
		v.Cover("accepted")
	}
}

//verif:contract prop=C26 target=VerifySigEthMsgDate spare
func vc_VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) {
	ok := VerifySigEthMsgDate(addr, sig, msg, date)
	v.Ensures("accepts exactly the signatures of the message followed by the date", ok == specSignedMsg(addr, *sig, specDated(msg, date)))
	if ok {
		v.Cover("accepted")
	}
}

// ---- signing

// The Ethereum key store signs with the key of the account: the signature it returns recovers to
// that address.
//
//verif:stub target=(*github.com/ethereum/go-ethereum/accounts/keystore.KeyStore).SignHash
func stub_SignHash(ks *keystore.KeyStore, a accounts.Account, hash []byte) ([]byte, error) {
	if v.AnyBool("locked") {
		return nil, errors.New("locked")
	}
	sig := v.AnyBytes("signature")
	v.Requires(len(sig) == 65 && sig[64] < 2 && specSigned(a.Address, sig, hash))
	return sig, nil
}

//verif:contract prop=C26 target=SignEthMsg spare
func vc_SignEthMsg(acc accounts.Account, msg []byte) {
	ks := &keystore.KeyStore{}
	sig, err := SignEthMsg(ks, acc, msg)
	v.Ensures("a signature or an error", (sig == nil) == (err != nil))
	if err == nil {
		v.Ensures("verification accepts it", specSignedMsg(acc.Address, *sig, msg))
		v.Ensures("with recovery id 27 or 28", sig[64] == 27 || sig[64] == 28)
		v.Cover("signed")
	}
}

//verif:contract prop=C26 target=Sign
func vc_Sign(hash Hash, acc accounts.Account) {
	ks := &keystore.KeyStore{}
	sig, err := Sign(hash, ks, acc)
	if err == nil {
		v.Ensures("verification accepts it", specSigned(acc.Address, sig, hash[:]))
	}
}

//verif:contract prop=C26 target=GetPkFromKeyStore
func vc_GetPk(addr common.Address) {
	ks := &keystore.KeyStore{}
	pk, err := GetPkFromKeyStore(ks, addr)
	v.Ensures("a key or an error", (pk == nil) == (err != nil))
	if err == nil {
		v.Ensures("the key of that address", stub_PubkeyToAddress(*pk) == addr)
		v.Cover("found")
	}
}
