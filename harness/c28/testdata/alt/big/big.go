// Package big has the name of math/big.
package big

type Int uint64
type Nat [8]byte
