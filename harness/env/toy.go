//go:build toy

// Package env is the seam between the explorer and the group library under
// the code being explored.
package env

import (
	"math/big"

	mathlib "github.com/IBM/mathlib"
	"github.com/IBM/mathlib/driver/gurvy"
)

const Toy = true

func Seed(s uint64)                  { gurvy.Seed(s) }
func Draws() uint64                  { return gurvy.Draws() }
func Force(f func(uint64) *big.Int)  { gurvy.Force(f) }
func OnScalar(f func([]byte) []byte) { gurvy.OnScalar(f) }

// OnEqual decides comparisons of group elements (nil: by value).
func OnEqual(f func(group byte, diff []*big.Int) bool) { gurvy.OnEqual(f) }

// SetWorlds is the number of independent discrete logarithms per element.
func SetWorlds(n int) { gurvy.SetWorlds(n) }

func MakeG1(x []*big.Int) *mathlib.G1 { return mathlib.MakeG1(x) }
func MakeG2(x []*big.Int) *mathlib.G2 { return mathlib.MakeG2(x) }
func MakeGt(x []*big.Int) *mathlib.Gt { return mathlib.MakeGt(x) }
func Log(g *mathlib.G1) []*big.Int    { return mathlib.Log(g) }
