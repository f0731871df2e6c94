// Transparent-group stand-in for the BN254 driver of github.com/IBM/mathlib.
//
// G1, G2 and the order-r subgroup of Gt are cyclic of prime order r, hence
// isomorphic to (Z_r, +).  This driver represents every group element by its
// image under that isomorphism (its discrete logarithm) and the pairing by
// multiplication, so every equation the code under test evaluates has exactly
// the truth value it has over BN254 for the same scalars.  Zr is the original
// driver's code unchanged, so quirks that are visible to callers (unreduced
// sums, comparison without reduction, two's complement Bytes of negative
// values, Gt.Exp ignoring the exponent's sign) are preserved.
//
// Randomness is behind a seam: a seeded deterministic stream, in which any
// single draw can be overridden.
package gurvy

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"sync"
	"sync/atomic"

	"github.com/IBM/mathlib/driver"
	"github.com/IBM/mathlib/driver/common"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

/********************************* seam: randomness **************************/

var (
	rngMu    sync.Mutex
	rngSeed  uint64
	rngCtr   uint64
	rngForce func(draw uint64) *big.Int
)

// Seed restarts the deterministic random stream.
func Seed(s uint64) { rngMu.Lock(); rngSeed, rngCtr = s, 0; rngMu.Unlock() }

// Draws reports how many scalars were drawn since Seed.
func Draws() uint64 { rngMu.Lock(); defer rngMu.Unlock(); return rngCtr }

// Force installs a function that may replace the k-th draw (nil keeps it).
func Force(f func(draw uint64) *big.Int) { rngMu.Lock(); rngForce = f; rngMu.Unlock() }

var scalarHook atomic.Pointer[func([]byte) []byte]

// OnScalar installs a function that sees, and may replace, every byte string
// converted to a scalar (every challenge of the protocols is one).
func OnScalar(f func([]byte) []byte) {
	if f == nil {
		scalarHook.Store(nil)
		return
	}
	scalarHook.Store(&f)
}

var equalHook atomic.Pointer[func(byte, []*big.Int) bool]

// OnEqual installs a function that decides every comparison of group elements,
// given the discrete logarithms of their difference.
func OnEqual(f func(group byte, diff []*big.Int) bool) {
	if f == nil {
		equalHook.Store(nil)
		return
	}
	equalHook.Store(&f)
}

func draw() *big.Int {
	rngMu.Lock()
	defer rngMu.Unlock()
	k := rngCtr
	rngCtr++
	if rngForce != nil {
		if v := rngForce(k); v != nil {
			return new(big.Int).Set(v)
		}
	}
	var b [24]byte
	copy(b[:], "toyrng")
	binary.BigEndian.PutUint64(b[8:], rngSeed)
	binary.BigEndian.PutUint64(b[16:], k)
	h := sha256.Sum256(b[:])
	x := new(big.Int).SetBytes(h[:])
	return x.Mod(x, fr.Modulus())
}

/********************************* Zr (verbatim) *****************************/

type bn254Zr struct {
	*big.Int
}

func (z *bn254Zr) Plus(a driver.Zr) driver.Zr {
	return &bn254Zr{new(big.Int).Add(z.Int, a.(*bn254Zr).Int)}
}

func (z *bn254Zr) Mul(a driver.Zr) driver.Zr {
	prod := new(big.Int).Mul(z.Int, a.(*bn254Zr).Int)
	return &bn254Zr{prod.Mod(prod, order)}
}

func (z *bn254Zr) Mod(a driver.Zr) {
	z.Int.Mod(z.Int, a.(*bn254Zr).Int)
}

func (z *bn254Zr) PowMod(x driver.Zr) driver.Zr {
	return &bn254Zr{new(big.Int).Exp(z.Int, x.(*bn254Zr).Int, order)}
}

func (z *bn254Zr) InvModP(a driver.Zr) {
	z.Int.ModInverse(z.Int, a.(*bn254Zr).Int)
}

func (z *bn254Zr) Bytes() []byte {
	return common.BigToBytes(z.Int)
}

func (z *bn254Zr) Equals(a driver.Zr) bool {
	return z.Int.Cmp(a.(*bn254Zr).Int) == 0
}

func (z *bn254Zr) Copy() driver.Zr {
	return &bn254Zr{new(big.Int).Set(z.Int)}
}

func (z *bn254Zr) Clone(a driver.Zr) {
	raw := a.(*bn254Zr).Int.Bytes()
	z.Int.SetBytes(raw)
}

func (z *bn254Zr) String() string {
	return z.Int.Text(16)
}

/********************************* groups ************************************/

var order = fr.Modulus()

func fromBig(x *big.Int) fr.Element {
	var e fr.Element
	e.SetBigInt(x)
	return e
}

// Every group element carries its logarithm in several worlds.  Generators
// obtained by hashing have independent logarithms in each, so that a few
// scalars cannot be solved for to make unrelated elements equal in all of
// them: what holds in all worlds holds for whoever does not know discrete
// logarithms.  SetWorlds says how many of them comparisons, and the observers
// of logarithms, look at; with one, an element is its discrete logarithm.
// What an element is and how it is encoded does not depend on it, so elements
// may outlive a change.
const maxWorlds = 5

var worlds = 1

func SetWorlds(n int) {
	if n < 1 || n > maxWorlds {
		panic("number of worlds")
	}
	worlds = n
}

type vec [maxWorlds]fr.Element

func (v *vec) add(a *vec) {
	for i := range v {
		v[i].Add(&v[i], &a[i])
	}
}

func (v *vec) sub(a *vec) {
	for i := range v {
		v[i].Sub(&v[i], &a[i])
	}
}

func (v *vec) neg() {
	for i := range v {
		v[i].Neg(&v[i])
	}
}

func (v *vec) scaled(a *vec, s *fr.Element) {
	if a.plain() {
		v[0].Mul(&a[0], s)
		for i := range v {
			v[i] = v[0]
		}
		return
	}
	for i := range v {
		v[i].Mul(&a[i], s)
	}
}

func (v *vec) times(a, b *vec) {
	for i := range v {
		v[i].Mul(&a[i], &b[i])
	}
}

func (v *vec) zero() bool {
	return *v == vec{}
}

func (v *vec) equal(a *vec) bool {
	for i := 0; i < worlds; i++ {
		if !v[i].Equal(&a[i]) {
			return false
		}
	}
	return true
}

// plain elements have the same logarithm in all worlds.
func (v *vec) plain() bool {
	for i := 1; i < len(v); i++ {
		if v[i] != v[0] {
			return false
		}
	}
	return true
}

func (v *vec) bytes() []byte {
	n := len(v)
	if v.plain() {
		n = 1
	}
	b := make([]byte, 0, 32*n)
	for i := 0; i < n; i++ {
		x := v[i].Bytes()
		b = append(b, x[:]...)
	}
	return b
}

// last is the 32 byte form of an element.
func (v *vec) last() []byte {
	b := v.bytes()
	if len(b) > 32 {
		h := sha256.Sum256(b)
		return h[:]
	}
	return b
}

func (v *vec) set(b []byte) {
	v[0].SetBytes(b)
	for i := range v {
		v[i] = v[0]
	}
}

func ones() (v vec) {
	for i := range v {
		v[i].SetOne()
	}
	return
}

func vecOf(x []*big.Int) (v vec) {
	for i := range v {
		v[i] = fromBig(x[min(i, len(x)-1)])
	}
	return
}

// MakeG1, MakeG2 and MakeGt are the elements with the given logarithms.
func MakeG1(x []*big.Int) driver.G1 { return &bn254G1{vecOf(x)} }
func MakeG2(x []*big.Int) driver.G2 { return &bn254G2{vecOf(x)} }
func MakeGt(x []*big.Int) driver.Gt {
	return &bn254Gt{fin: vecOf(x)}
}

func bigs(v *vec) []*big.Int {
	r := make([]*big.Int, worlds)
	for i := range r {
		r[i] = v[i].ToBigIntRegular(new(big.Int))
	}
	return r
}

// Log are the logarithms of an element of G1.
func Log(g driver.G1) []*big.Int { return bigs(&g.(*bn254G1).e) }

func equal(group byte, a, b *vec) bool {
	if f := equalHook.Load(); f != nil {
		d := *a
		d.sub(b)
		return (*f)(group, bigs(&d))
	}
	return a.equal(b)
}

// encode mimics an uncompressed curve point: the first half identifies the
// element up to sign (an x coordinate does), the second half is the element.
func encode(tag byte, e *vec, size int) []byte {
	out := make([]byte, size)
	if e.zero() {
		return out
	}
	n := *e
	n.neg()
	a, b := e.last(), n.last()
	lo := a
	if string(b) < string(a) {
		lo = b
	}
	h := sha256.Sum256(append([]byte{tag}, lo...))
	copy(out, h[:])
	copy(out[size-32:], a)
	return out
}

func decode(tag byte, b []byte, size int) (vec, error) {
	var e vec
	if len(b) < size {
		return e, io.ErrShortBuffer
	}
	e.set(b[size-32 : size]) // other elements than plain ones are not decoded
	if string(encode(tag, &e, size)) != string(b[:size]) {
		return e, fmt.Errorf("invalid point")
	}
	return e, nil
}

type bn254G1 struct{ e vec }

func (g *bn254G1) Clone(a driver.G1) { g.e = a.(*bn254G1).e }
func (g *bn254G1) Copy() driver.G1   { c := *g; return &c }
func (g *bn254G1) Add(a driver.G1)   { g.e.add(&a.(*bn254G1).e) }
func (g *bn254G1) Sub(a driver.G1)   { g.e.sub(&a.(*bn254G1).e) }
func (g *bn254G1) Mul(a driver.Zr) driver.G1 {
	s := fromBig(a.(*bn254Zr).Int)
	r := &bn254G1{}
	r.e.scaled(&g.e, &s)
	return r
}
func (g *bn254G1) Mul2(e driver.Zr, Q driver.G1, f driver.Zr) driver.G1 {
	a := g.Mul(e)
	a.Add(Q.Mul(f))
	return a
}
func (g *bn254G1) Equals(a driver.G1) bool { return equal(1, &g.e, &a.(*bn254G1).e) }
func (g *bn254G1) Bytes() []byte           { return encode(1, &g.e, 64) }
func (g *bn254G1) IsInfinity() bool        { return g.e.zero() }
func (g *bn254G1) String() string          { return "(" + g.e[0].String() + ")" }

type bn254G2 struct{ e vec }

func (g *bn254G2) Clone(a driver.G2) { g.e = a.(*bn254G2).e }
func (g *bn254G2) Copy() driver.G2   { c := *g; return &c }
func (g *bn254G2) Add(a driver.G2)   { g.e.add(&a.(*bn254G2).e) }
func (g *bn254G2) Sub(a driver.G2)   { g.e.sub(&a.(*bn254G2).e) }
func (g *bn254G2) Mul(a driver.Zr) driver.G2 {
	s := fromBig(a.(*bn254Zr).Int)
	r := &bn254G2{}
	r.e.scaled(&g.e, &s)
	return r
}
func (g *bn254G2) Affine()                 {}
func (g *bn254G2) Equals(a driver.G2) bool { return equal(2, &g.e, &a.(*bn254G2).e) }
func (g *bn254G2) Bytes() []byte           { return encode(2, &g.e, 128) }
func (g *bn254G2) String() string          { return "[" + g.e[0].String() + "]" }

// bn254Gt is raw*final: a Miller loop output (raw, with a representative that
// depends on the arguments: noise) times an element of the order-r subgroup.
type bn254Gt struct{ raw, noise, fin vec }

var fexpK = func() fr.Element {
	q, _ := new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
	k := new(big.Int).Exp(q, big.NewInt(12), nil)
	k.Sub(k, big.NewInt(1))
	k.Div(k, order)
	k.Mod(k, order)
	return fromBig(k)
}()

func (g *bn254Gt) Exp(x driver.Zr) driver.Gt {
	s := fromBig(new(big.Int).Abs(x.(*bn254Zr).Int)) // the real driver ignores the sign
	r := &bn254Gt{}
	r.raw.scaled(&g.raw, &s)
	r.noise.scaled(&g.noise, &s)
	r.fin.scaled(&g.fin, &s)
	return r
}
func (g *bn254Gt) Equals(a driver.Gt) bool {
	b := a.(*bn254Gt)
	if !g.raw.equal(&b.raw) || !g.noise.equal(&b.noise) {
		return false
	}
	return equal(3, &g.fin, &b.fin)
}
func (g *bn254Gt) Inverse() {
	g.raw.neg()
	g.noise.neg()
	g.fin.neg()
}
func (g *bn254Gt) Mul(a driver.Gt) {
	b := a.(*bn254Gt)
	g.raw.add(&b.raw)
	g.noise.add(&b.noise)
	g.fin.add(&b.fin)
}
func (g *bn254Gt) IsUnity() bool    { return g.raw.zero() && g.noise.zero() && g.fin.zero() }
func (g *bn254Gt) ToString() string { return g.raw[0].String() + "|" + g.fin[0].String() }
func (g *bn254Gt) Bytes() []byte {
	out := make([]byte, 384)
	copy(out[0:], g.raw.last())
	copy(out[32:], g.noise.last())
	copy(out[352:], g.fin.last())
	return out
}

/********************************* curve *************************************/

type Bn254 struct{}

func (c *Bn254) Pairing(p2 driver.G2, p1 driver.G1) driver.Gt {
	a, b := p1.(*bn254G1), p2.(*bn254G2)
	r := &bn254Gt{}
	if a.e.zero() || b.e.zero() {
		return r
	}
	r.raw.times(&a.e, &b.e)
	h := sha256.Sum256(append(append([]byte("miller"), a.e.bytes()...), b.e.bytes()...))
	r.noise.set(h[:])
	return r
}

func (c *Bn254) Pairing2(p2a, p2b driver.G2, p1a, p1b driver.G1) driver.Gt {
	r := c.Pairing(p2a, p1a)
	r.Mul(c.Pairing(p2b, p1b))
	return r
}

func (c *Bn254) FExp(a driver.Gt) driver.Gt {
	g := a.(*bn254Gt)
	r := &bn254Gt{}
	r.fin.scaled(&g.fin, &fexpK)
	r.fin.add(&g.raw)
	return r
}

func (*Bn254) ModAdd(a, b, m driver.Zr) driver.Zr {
	c := a.Plus(b)
	c.Mod(m)
	return c
}

func (c *Bn254) ModSub(a, b, m driver.Zr) driver.Zr {
	return c.ModAdd(a, c.ModNeg(b, m), m)
}

func (c *Bn254) ModNeg(a1, m driver.Zr) driver.Zr {
	a := a1.Copy()
	a.Mod(m)
	return &bn254Zr{a.(*bn254Zr).Int.Sub(m.(*bn254Zr).Int, a.(*bn254Zr).Int)}
}

func (c *Bn254) ModMul(a1, b1, m driver.Zr) driver.Zr {
	a := a1.Copy()
	b := b1.Copy()
	a.Mod(m)
	b.Mod(m)
	return &bn254Zr{a.(*bn254Zr).Int.Mul(a.(*bn254Zr).Int, b.(*bn254Zr).Int)}
}

func (c *Bn254) GenG1() driver.G1 { return &bn254G1{ones()} }
func (c *Bn254) GenG2() driver.G2 { return &bn254G2{ones()} }
func (c *Bn254) GenGt() driver.Gt { return &bn254Gt{fin: ones()} }

func (c *Bn254) GroupOrder() driver.Zr { return &bn254Zr{fr.Modulus()} }
func (c *Bn254) FieldBytes() int       { return 32 }
func (c *Bn254) NewG1() driver.G1      { return &bn254G1{} }
func (c *Bn254) NewG2() driver.G2      { return &bn254G2{} }

func (c *Bn254) NewG1FromCoords(ix, iy driver.Zr) driver.G1 { return nil }

func (c *Bn254) NewZrFromBytes(b []byte) driver.Zr {
	if f := scalarHook.Load(); f != nil {
		b = (*f)(b)
	}
	return &bn254Zr{new(big.Int).SetBytes(b)}
}

func (c *Bn254) NewZrFromInt(i int64) driver.Zr {
	return &bn254Zr{big.NewInt(i)}
}

func (c *Bn254) NewG1FromBytes(b []byte) driver.G1 {
	e, err := decode(1, b, 64)
	if err != nil {
		panic(fmt.Sprintf("set bytes failed [%s]", err.Error()))
	}
	return &bn254G1{e}
}

func (c *Bn254) NewG2FromBytes(b []byte) driver.G2 {
	e, err := decode(2, b, 128)
	if err != nil {
		panic(fmt.Sprintf("set bytes failed [%s]", err.Error()))
	}
	return &bn254G2{e}
}

func (c *Bn254) NewGtFromBytes(b []byte) driver.Gt {
	if len(b) != 384 {
		panic("set bytes failed [invalid size]")
	}
	r := &bn254Gt{}
	r.raw.set(b[0:32])
	r.noise.set(b[32:64])
	r.fin.set(b[352:])
	return r
}

func (c *Bn254) HashToZr(data []byte) driver.Zr {
	digest := sha256.Sum256(data)
	digestBig := c.NewZrFromBytes(digest[:])
	digestBig.Mod(c.GroupOrder())
	return digestBig
}

func (c *Bn254) HashToG1(data []byte) driver.G1 {
	h := sha256.Sum256(append([]byte("toy hash to G1:"), data...))
	g := &bn254G1{}
	g.e[0].SetBytes(h[:])
	for i := 1; i < len(g.e); i++ {
		h = sha256.Sum256(h[:])
		g.e[i].SetBytes(h[:])
	}
	return g
}

func (c *Bn254) NewRandomZr(rng io.Reader) driver.Zr {
	return &bn254Zr{draw()}
}

func (c *Bn254) Rand() (io.Reader, error) {
	return rand.Reader, nil
}
