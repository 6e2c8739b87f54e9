package witnesscalc

import "math/big"

// stand-in used by the replay search only: no circuits are available here
var Hook = func(wasm []byte, inputs map[string]interface{}) ([]*big.Int, error) {
	return []*big.Int{big.NewInt(1)}, nil
}

func CalculateWitnessBinWASM(wasmBytes []byte, inputs map[string]interface{}) ([]*big.Int, error) {
	return Hook(wasmBytes, inputs)
}
