package idensigner

import (
	"crypto/sha256"
	"errors"
	"math/big"

	"github.com/iden3/go-iden3-crypto/babyjub"

	babykeystore "github.com/iden3/go-iden3-core/keystore"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// What the key store does is decided by C24: an unlocked key signs the hash of exactly the message.

func specSigned(pk [32]byte, msg []byte) [64]byte {
	h, g := sha256.Sum256(append(append([]byte{}, pk[:]...), msg...)), sha256.Sum256(msg)
	var c [64]byte
	copy(c[:32], h[:])
	copy(c[32:], g[:])
	return c
}

//verif:stub target=(*github.com/iden3/go-iden3-core/keystore.KeyStore).SignRaw
func stub_SignRaw(ks *babykeystore.KeyStore, pk *babyjub.PublicKeyComp, msg []byte) (*babyjub.SignatureComp, error) {
	if v.AnyBool("locked") {
		return nil, errors.New("locked")
	}
	c := babyjub.SignatureComp(specSigned(*pk, msg))
	return &c, nil
}

//verif:stub target=(*github.com/iden3/go-iden3-crypto/babyjub.PublicKey).Compress
func stub_PubCompress(pk *babyjub.PublicKey) babyjub.PublicKeyComp {
	var c babyjub.PublicKeyComp
	pk.X.FillBytes(c[:])
	return c
}

func specSigner(x *big.Int) (*IdenSigner, [32]byte) {
	var c [32]byte
	x.FillBytes(c[:])
	return New(&babykeystore.KeyStore{}, babyjub.PublicKey{X: x, Y: new(big.Int)}), c
}

//verif:contract prop=C26 target=IdenSigner.SignEthMsg spare
func vc_SignEthMsg(x *big.Int, msg []byte) {
	v.Requires(x.Sign() >= 0 && x.BitLen() <= 256)
	s, pk := specSigner(x)
	sig, err := s.SignEthMsg(msg)
	if err == nil {
		v.Ensures("signs that message with its key", *sig == specSigned(pk, msg))
		v.Cover("signed")
	}
}

//verif:contract prop=C26 target=IdenSigner.SignEthMsgDate spare
func vc_SignEthMsgDate(x *big.Int, msg []byte) {
	v.Requires(x.Sign() >= 0 && x.BitLen() <= 256)
	s, pk := specSigner(x)
	sig, date, err := s.SignEthMsgDate(msg)
	if err == nil {
		var d [8]byte
		for i := 0; i < 8; i++ {
			d[i] = byte(uint64(date) >> uint(56-8*i))
		}
		v.Ensures("signs the message followed by the date it returns", *sig == specSigned(pk, append(append([]byte{}, msg...), d[:]...)))
		v.Cover("signed")
	}
}
