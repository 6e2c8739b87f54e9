package prover

import (
	"math/big"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/types"
)

const GSIZE = 6

// stand-in used by the replay search only: no circuits are available here
var Hook = func(pk *types.Pk, w types.Witness) (*types.Proof, []*big.Int, error) {
	one := big.NewInt(1)
	return &types.Proof{A: new(bn256.G1).ScalarBaseMult(one), B: new(bn256.G2).ScalarBaseMult(one), C: new(bn256.G1).ScalarBaseMult(one)}, []*big.Int{}, nil
}

func GenerateProof(pk *types.Pk, w types.Witness) (*types.Proof, []*big.Int, error) {
	return Hook(pk, w)
}
