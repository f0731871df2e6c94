//go:build !toy

package env

import (
	"math/big"

	mathlib "github.com/IBM/mathlib"
)

const Toy = false

func Seed(s uint64)                                    {}
func Draws() uint64                                    { return 0 }
func Force(f func(uint64) *big.Int)                    {}
func OnScalar(f func([]byte) []byte)                   {}
func OnEqual(f func(group byte, diff []*big.Int) bool) {}
func SetWorlds(n int)                                  {}
func MakeG1(x []*big.Int) *mathlib.G1                  { panic("transparent group only") }
func MakeG2(x []*big.Int) *mathlib.G2                  { panic("transparent group only") }
func MakeGt(x []*big.Int) *mathlib.Gt                  { panic("transparent group only") }
func Log(g *mathlib.G1) []*big.Int                     { panic("transparent group only") }
