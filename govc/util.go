package main

import (
	"fmt"
	"math/big"
)

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

func bigAddSub(a, minus, plus *big.Int) *big.Int {
	// value y = base+plus = a ; want base+minus(c) = a - plus + c
	r := new(big.Int).Sub(a, plus)
	return r.Add(r, minus)
}
