package verifier

import (
	"math/big"

	"github.com/iden3/go-circom-prover-verifier/types"
)

// stand-in used by the replay search only: no circuits are available here
var Hook = func(vk *types.Vk, proof *types.Proof, inputs []*big.Int) bool { return true }

func Verify(vk *types.Vk, proof *types.Proof, inputs []*big.Int) bool { return Hook(vk, proof, inputs) }
