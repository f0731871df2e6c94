// Package lib has what the drivers share: databases, parameters, the
// reference ledger, an independent recomputation of what a vertex must hold,
// and a walker over the components of a proof.
package lib

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"mc/env"
	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

var (
	C     = math.Curves[1]
	Order = func() *big.Int { return new(big.Int).SetBytes(C.GroupOrder.Bytes()) }()
)

func init() { pol.ParallelismEnabled = false }

// ---------------------------------------------------------------- databases

// DB is a map with value semantics that can fail, and records accesses.
type DB struct {
	M          map[string][]byte
	Puts, Gets int
	FailPut    int // the FailPut-th Put from now panics (1 = next); 0 = never
	FailGet    int
	Missing    bool // the failing Get finds nothing instead
	PutAfter   bool // the failing Put stores the value before it panics
	ReadOnly   bool // keep no count of reads: several goroutines may read
	Alias      bool // hand out and keep the caller's slices
}

type DBFault struct{ Op string }

func NewDB() *DB { return &DB{M: map[string][]byte{}} }

func (d *DB) Get(k []byte) []byte {
	if d.ReadOnly {
		return append([]byte(nil), d.M[string(k)]...)
	}
	d.Gets++
	if d.FailGet > 0 {
		d.FailGet--
		if d.FailGet == 0 {
			if d.Missing {
				return nil
			}
			panic(DBFault{"get"})
		}
	}
	v := d.M[string(k)]
	if v == nil || d.Alias {
		return v
	}
	return append([]byte{}, v...)
}

func (d *DB) Put(k, v []byte) {
	d.Puts++
	if d.FailPut > 0 {
		d.FailPut--
		if d.FailPut == 0 {
			if d.PutAfter {
				d.M[string(k)] = append([]byte{}, v...)
			}
			panic(DBFault{"put"})
		}
	}
	if d.Alias {
		d.M[string(k)] = v
		return
	}
	d.M[string(k)] = append([]byte{}, v...)
}

func (d *DB) Snapshot() string {
	var ks []string
	for k := range d.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		fmt.Fprintf(h, "%d:%s=%d:", len(k), k, len(d.M[k]))
		h.Write(d.M[k])
	}
	return string(h.Sum(nil))
}

// ---------------------------------------------------------------- parameters

type miniKey struct{ fanout, m int }

var minis = map[miniKey]*pol.PublicParams{}

// MiniPP assembles the parameters of a shallow tree the way
// GeneratePublicParams does for the two real tree types.
func MiniPP(fanout, m int) *pol.PublicParams {
	k := miniKey{fanout, m}
	if p := minis[k]; p != nil {
		return p
	}
	p := NewMiniPP(fanout, m)
	minis[k] = p
	return p
}

func NewMiniPP(fanout, m int) *pol.PublicParams {
	n := fanout + 1
	po := poe.NewPublicParams(fanout+2, m)
	p := &pol.PublicParams{Fanout: fanout, PPPP: po.PP, SAPP: sum.NewPublicParams(n), RPPP: bp.NewRangeProofPublicParams(n), POEPP: po}
	p.SAPP.F = p.PPPP.G1s[n]
	p.SAPP.Gs = make(common.G1v, n)
	copy(p.SAPP.Gs, p.PPPP.G1s)
	p.RPPP.Gs = p.SAPP.Gs
	p.RPPP.F = p.SAPP.F
	return p
}

// M is the number of equalities a proof of the given depth carries.
func M(depth int) int {
	m := 2
	for m < depth-1 {
		m *= 2
	}
	return m
}

const Digits = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// Path is the map of the shallow trees: a digit per layer.
func Path(id string) []uint16 {
	var p []uint16
	for _, ch := range id {
		p = append(p, uint16(strings.IndexRune(Digits, ch)))
	}
	return p
}

// PathDot is the map for larger fanouts: dot-separated numbers.
func PathDot(id string) []uint16 {
	var p []uint16
	for _, s := range strings.Split(id, ".") {
		n := 0
		fmt.Sscanf(s, "%d", &n)
		p = append(p, uint16(n))
	}
	return p
}

type fullKey struct {
	fanout int
	dense  bool
}
type fullPP struct {
	pp      *pol.PublicParams
	id2path func(string) []uint16
}

var fulls = map[fullKey]fullPP{}

// FullPP are the real parameters of a tree type.
func FullPP(fanout int, dense bool) (func(string) []uint16, *pol.PublicParams) {
	k := fullKey{fanout, dense}
	if f, ok := fulls[k]; ok {
		return f.id2path, f.pp
	}
	t := pol.Sparse
	if dense {
		t = pol.Dense
	}
	f, p := pol.GeneratePublicParams(uint16(fanout), t)
	fulls[k] = fullPP{p, f}
	return f, p
}

// WithSeed makes what f draws independent of what was drawn before.
func WithSeed(s uint64, f func()) { env.Seed(s); f() }

// ---------------------------------------------------------------- scalars

func Zr(n int64) *math.Zr { return C.NewZrFromInt(n) }

// ZrBig is the reduced scalar of n.
func ZrBig(n *big.Int) *math.Zr {
	x := new(big.Int).Mod(n, Order)
	b := make([]byte, 32)
	x.FillBytes(b)
	return C.NewZrFromBytes(b)
}

// Big is the residue of a scalar; ok is false if it has no 32 byte form.
func Big(z *math.Zr) (x *big.Int) {
	y := z.Copy()
	y.Mod(C.GroupOrder)
	return new(big.Int).SetBytes(y.Bytes())
}

func ZrEq(a, b *math.Zr) bool { return Big(a).Cmp(Big(b)) == 0 }

func ZeroG1() *math.G1 {
	g := C.GenG1.Copy()
	g.Sub(C.GenG1)
	return g
}

// CommitRef is the Pedersen vector commitment, computed term by term.
func CommitRef(gens common.G1v, m []*big.Int) *math.G1 {
	acc := ZeroG1()
	for i, x := range m {
		if x == nil || x.Sign() == 0 {
			continue
		}
		acc.Add(gens[i].Mul(ZrBig(x)))
	}
	return acc
}

// HashRef is the field element of a hash: the big endian words of the digest
// are the little endian limbs of a Montgomery representation.
func HashRef(parts ...[]byte) *big.Int {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return MontRef(h.Sum(nil))
}

// MontRef interprets 32 bytes the way the protocol derives scalars.
func MontRef(d []byte) *big.Int {
	top := new(big.Int).SetUint64(3486998266802970665)
	var limbs [4]*big.Int
	for i := range limbs {
		limbs[i] = new(big.Int).SetBytes(d[8*i : 8*i+8])
	}
	limbs[3].Mod(limbs[3], top)
	x := new(big.Int)
	for i := 3; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Add(x, limbs[i])
	}
	x.Mod(x, Order)
	R := new(big.Int).Lsh(big.NewInt(1), 256)
	R.Mod(R, Order)
	R.ModInverse(R, Order)
	x.Mul(x, R)
	return x.Mod(x, Order)
}

// ---------------------------------------------------------------- reference

// Ledger is the reference model: what was last set for every id.
type Ledger map[string]int64

func (l Ledger) Sum() *big.Int {
	s := new(big.Int)
	for _, v := range l {
		s.Add(s, big.NewInt(v))
	}
	return s
}

func (l Ledger) String() string {
	var ks []string
	for k := range l {
		ks = append(ks, fmt.Sprintf("%s=%d", k, l[k]))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// IDs lists the ids in order.
func (l Ledger) IDs() []string {
	var ks []string
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (l Ledger) Copy() Ledger {
	r := Ledger{}
	for k, v := range l {
		r[k] = v
	}
	return r
}

// Under is the ledger below a path prefix.
func (l Ledger) Under(id2path func(string) []uint16, prefix []uint16) Ledger {
	r := Ledger{}
next:
	for id, v := range l {
		p := id2path(id)
		for i := range prefix {
			if p[i] != prefix[i] {
				continue next
			}
		}
		r[id] = v
	}
	return r
}

// Children sums the ledger below a prefix per child index.
func (l Ledger) Children(id2path func(string) []uint16, prefix []uint16) map[uint16]*big.Int {
	r := map[uint16]*big.Int{}
	for id, v := range l.Under(id2path, prefix) {
		c := id2path(id)[len(prefix)]
		if r[c] == nil {
			r[c] = new(big.Int)
		}
		r[c].Add(r[c], big.NewInt(v))
	}
	return r
}

// ---------------------------------------------------------------- walker

// Leaf is one group element, scalar, or integer inside a proof.
type Leaf struct {
	Path   string
	V      reflect.Value // settable
	Parent reflect.Type  // type of the innermost struct around it
}

var (
	tyG1 = reflect.TypeOf((*math.G1)(nil))
	tyG2 = reflect.TypeOf((*math.G2)(nil))
	tyGt = reflect.TypeOf((*math.Gt)(nil))
	tyZr = reflect.TypeOf((*math.Zr)(nil))
)

func access(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanSet() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func isElem(t reflect.Type) bool { return t == tyG1 || t == tyG2 || t == tyGt || t == tyZr }

// Leaves lists the elements reachable from the pointer p, in a fixed order.
func Leaves(p interface{}) []Leaf {
	var out []Leaf
	walk("", reflect.ValueOf(p).Elem(), nil, func(path string, v reflect.Value, parent reflect.Type) {
		if isElem(v.Type()) || (v.Kind() == reflect.Int && v.CanSet()) || v.Kind() == reflect.Int64 {
			out = append(out, Leaf{path, v, parent})
		}
	})
	return out
}

// Slices lists the slices of elements (or of sub-proofs) reachable from p.
func Slices(p interface{}) []Leaf {
	var out []Leaf
	walk("", reflect.ValueOf(p).Elem(), nil, func(path string, v reflect.Value, parent reflect.Type) {
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() != reflect.Uint8 {
			out = append(out, Leaf{path, v, parent})
		}
	})
	return out
}

func walk(path string, v reflect.Value, parent reflect.Type, f func(string, reflect.Value, reflect.Type)) {
	v = access(v)
	f(path, v, parent)
	if isElem(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walk(path, v.Elem(), parent, f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fv := access(v.Field(i))
			walk(path+"."+fieldNames(v.Type())[i], fv, v.Type(), f)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), parent, f)
		}
	}
}

// Tampered lists altered forms of an element: none has the same value.
func Tampered(v reflect.Value) (names []string, vals []reflect.Value) {
	add := func(n string, x interface{}) {
		names = append(names, n)
		vals = append(vals, reflect.ValueOf(x))
	}
	switch e := v.Interface().(type) {
	case *math.G1:
		if e == nil {
			return
		}
		a := e.Copy()
		a.Add(C.GenG1)
		add("+g", a)
		b := e.Copy()
		b.Sub(C.GenG1)
		add("-g", b)
		if !e.IsInfinity() {
			add("infinity", ZeroG1())
			n := ZeroG1()
			n.Sub(e)
			add("negated", n)
			d := e.Copy()
			d.Add(e)
			add("doubled", d)
		}
	case *math.Zr:
		if e == nil {
			return
		}
		x := Big(e)
		seen := map[string]bool{x.String(): true}
		put := func(n string, y *big.Int) {
			z := ZrBig(y)
			if k := Big(z).String(); !seen[k] {
				seen[k] = true
				add(n, z)
			}
		}
		put("+1", new(big.Int).Add(x, big.NewInt(1)))
		put("-1", new(big.Int).Sub(x, big.NewInt(1)))
		put("zero", new(big.Int))
		put("one", big.NewInt(1))
		put("negated", new(big.Int).Neg(x))
		put("doubled", new(big.Int).Add(x, x))
	case int:
		for _, d := range []int{1, -1, 1 << 32} {
			add(fmt.Sprintf("%+d", d), e+d)
		}
		if e != 0 {
			add("negated", -e)
		}
	}
	return
}

// SameElem compares two elements by value.
func SameElem(a, b reflect.Value) bool {
	switch x := a.Interface().(type) {
	case *math.G1:
		y := b.Interface().(*math.G1)
		return x.Equals(y)
	case *math.Zr:
		return ZrEq(x, b.Interface().(*math.Zr))
	case int:
		return x == b.Interface().(int)
	}
	return false
}

// Clone deep-copies a value (following pointers, slices and unexported
// fields), sharing nothing with the original.
func Clone(x interface{}) interface{} {
	v := reflect.ValueOf(x)
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return deep(p.Elem()).Interface()
}

func deep(v reflect.Value) reflect.Value {
	v = access(v)
	t := v.Type()
	switch {
	case t == tyG1:
		if v.IsNil() {
			return v
		}
		return reflect.ValueOf(v.Interface().(*math.G1).Copy())
	case t == tyZr:
		if v.IsNil() {
			return v
		}
		return reflect.ValueOf(v.Interface().(*math.Zr).Copy())
	case t == tyG2:
		if v.IsNil() {
			return v
		}
		return reflect.ValueOf(v.Interface().(*math.G2).Copy())
	case t == tyGt:
		return v
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(t.Elem())
		n.Elem().Set(deep(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(t).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			f := access(n.Field(i))
			f.Set(deep(f))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(t, v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deep(v.Index(i)))
		}
		return n
	case reflect.Array:
		n := reflect.New(t).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deep(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(t)
		for _, k := range v.MapKeys() {
			// map elements are not addressable
			e := reflect.New(t.Elem()).Elem()
			e.Set(v.MapIndex(k))
			n.SetMapIndex(k, deep(e))
		}
		return n
	}
	return v
}

// Fingerprint hashes everything reachable from the pointer p.
func Fingerprint(p interface{}) string {
	h := sha256.New()
	seen := 0
	var rec func(path string, v reflect.Value)
	rec = func(path string, v reflect.Value) {
		v = access(v)
		seen++
		t := v.Type()
		switch {
		case isElem(t):
			if v.IsNil() {
				fmt.Fprintf(h, "%s=nil;", path)
				return
			}
			switch e := v.Interface().(type) {
			case *math.G1:
				fmt.Fprintf(h, "%s=%x;", path, e.Bytes())
			case *math.G2:
				fmt.Fprintf(h, "%s=%x;", path, e.Bytes())
			case *math.Gt:
				fmt.Fprintf(h, "%s=%x;", path, e.Bytes())
			case *math.Zr:
				fmt.Fprintf(h, "%s=%s;", path, e.String())
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				fmt.Fprintf(h, "%s=nil;", path)
				return
			}
			if v.Kind() == reflect.Ptr {
				rec(path, v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(path+"."+fieldNames(t)[i], v.Field(i))
			}
		case reflect.Slice:
			fmt.Fprintf(h, "%s#%d;", path, v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		case reflect.Map:
			var ks []string
			m := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				s := fmt.Sprint(k.Interface())
				ks = append(ks, s)
				m[s] = v.MapIndex(k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				e := reflect.New(t.Elem()).Elem()
				e.Set(m[k])
				rec(path+"{"+k+"}", e)
			}
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		default:
			fmt.Fprintf(h, "%s=%v;", path, v)
		}
	}
	rec("", reflect.ValueOf(p).Elem())
	return string(h.Sum(nil))
}

// Field reads a field, exported or not, of the struct p points to.
func Field(p interface{}, name string) reflect.Value {
	v := reflect.ValueOf(p).Elem()
	for i, n := range fieldNames(v.Type()) {
		if n == name {
			return access(v.Field(i))
		}
	}
	return reflect.Value{}
}

// FieldOfType finds a field of the struct p points to by the type of sample.
func FieldOfType(p, sample interface{}) interface{} {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(sample) {
			return access(v.Field(i)).Interface()
		}
	}
	return nil
}

// ---------------------------------------------------------------- misc

// PPBad checks that a public parameter set is a power series without the
// one power that must be missing.
var _ = pp.Commit
var _ = sparse.DigitPath
