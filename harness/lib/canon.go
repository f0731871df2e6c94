package lib

import (
	"reflect"
	"sync"
)

// The names under which the checks know the fields of the structs they look
// into.  Most are unexported and may be renamed: fieldNames gives a field of
// another name the known name that is missing, if the types agree.
var known = map[string][][2]string{
	"bp.PP":                     {{"Digest", "[]uint8"}, {"G", "common.G1v"}, {"H", "common.G1v"}, {"U", "*math.G1"}},
	"bp.InnerProdArgument":      {{"pp", "*bp.PP"}, {"a", "common.Vec"}, {"b", "common.Vec"}, {"C", "*math.Zr"}, {"P", "*math.G1"}},
	"bp.InnerProductProof":      {{"LRs", "[]*math.G1"}, {"a", "*math.Zr"}, {"b", "*math.Zr"}, {"P", "*math.G1"}, {"C", "*math.Zr"}},
	"bp.RangeProofPublicParams": {{"G", "*math.G1"}, {"H", "*math.G1"}, {"F", "*math.G1"}, {"Gs", "common.G1v"}, {"Hs", "common.G1v"}, {"Fs", "common.G1v"}, {"digest", "[]uint8"}},
	"bp.RangeProof":             {{"Δ", "[][3]*math.G1"}, {"u", "*math.Zr"}, {"W", "*math.G1"}, {"γ", "*math.Zr"}, {"Π", "*bp.InnerProductProof"}, {"c", "*math.Zr"}, {"Q", "*math.G1"}, {"R", "*math.G1"}, {"C1", "*math.G1"}, {"C2", "*math.G1"}, {"τ", "*math.Zr"}, {"ρ", "*math.Zr"}},
	"poe.PP":                    {{"Digest", "[]uint8"}, {"G", "common.G1v"}, {"H", "common.G1v"}, {"F", "*math.G1"}, {"PP", "*pp.PP"}},
	"poe.Equalities":            {{"RO", "func(common.G1v, []int, []uint8, int) common.Vec"}, {"PP", "*poe.PP"}, {"V", "common.G1v"}, {"W", "common.G1v"}, {"I", "[]int"}, {"J", "[]int"}},
	"poe.AggregatedProof":       {{"IPP", "*bp.InnerProductProof"}, {"c", "*math.Zr"}, {"ρ", "*math.Zr"}, {"U", "*math.G1"}, {"V", "*math.G1"}, {"Ω", "*math.G1"}, {"Waggr", "common.G1v"}, {"Vaggr", "common.G1v"}},
	"poe.Equality":              {{"RO", "func(common.G1v, []int, []uint8, int) common.Vec"}, {"PP", "*poe.PP"}, {"V", "*math.G1"}, {"W", "*math.G1"}, {"I", "int"}, {"J", "int"}},
	"poe.Proof":                 {{"C", "*math.Zr"}, {"V", "*math.G1"}, {"W", "*math.G1"}, {"Ω", "*math.G1"}},
	"sum.PP":                    {{"Digest", "[]uint8"}, {"U", "*math.G1"}, {"Gs", "common.G1v"}, {"G", "*math.G1"}, {"F", "*math.G1"}, {"H", "common.G1v"}, {"b", "common.Vec"}, {"B", "*math.G1"}},
	"sum.Argument":              {{"V", "*math.G1"}},
	"sum.Proof":                 {{"W", "*math.G1"}, {"c", "*math.Zr"}, {"ρ", "*math.Zr"}, {"π", "*bp.InnerProductProof"}},
	"pp.PP":                     {{"Digest", "[]uint8"}, {"N", "int"}, {"G1s", "common.G1v"}, {"G2s", "common.G2v"}, {"Gt", "*math.Gt"}},
	"pol.LiabilitySet":          {{"DB", "verkle.DB"}, {"tree", "*verkle.Tree"}, {"pp", "*pol.PublicParams"}},
	"pol.PublicParams":          {{"PPPP", "*pp.PP"}, {"SAPP", "*sum.PP"}, {"RPPP", "*bp.RangeProofPublicParams"}, {"POEPP", "*poe.PP"}, {"Fanout", "int"}},
	"pol.LiabilityProof":        {{"PointProofΣ", "*math.Zr"}, {"PointProofπ", "*math.G1"}, {"SumArgumentProof", "*sum.Proof"}, {"V", "common.G1v"}, {"W", "common.G1v"}, {"Digests", "common.Vec"}, {"RangeProofs", "[]*bp.RangeProof"}, {"EqualityProof", "*poe.AggregatedProof"}, {"LiabilityProof", "pol.TotalProof"}},
	"pol.TotalProof":            {{"LiabilityProof", "*math.G1"}, {"Sum", "int"}},
	"pol.DBMemorizeRoot":        {{"DB", "verkle.DB"}, {"root", "[]uint8"}},
	"verkle.Tree":               {{"DB", "verkle.DB"}, {"PP", "*pp.PP"}, {"depth", "int"}, {"Tree", "*sparse.Tree"}},
	"verkle.Vertex":             {{"BlindingFactor", "*math.Zr"}, {"values", "map[uint16]*math.Zr"}, {"Digests", "map[uint16]*math.Zr"}, {"sum", "*math.Zr"}, {"V", "*math.G1"}, {"W", "*math.G1"}},
	"verkle.RawVertex":          {{"BlindingFactor", "[]uint8"}, {"Values", "[]verkle.KV"}, {"Digests", "[]verkle.KV"}, {"Sum", "[]uint8"}, {"V", "[]uint8"}, {"W", "[]uint8"}},
	"sparse.Tree":               {{"ID2Path", "func(string) []uint16"}, {"UpdateInnerVertex", "func(string, interface {}, []interface {}, bool, int) interface {}"}, {"FanOut", "int"}, {"Root", "*sparse.Vertex"}},
	"sparse.Vertex":             {{"key", "string"}, {"Data", "interface {}"}, {"Descendants", "map[uint16]*sparse.Vertex"}, {"Parent", "*sparse.Vertex"}},
}

var namesOf sync.Map

// fieldNames lists the names of the fields of a struct, in order.
func fieldNames(t reflect.Type) []string {
	if r, have := namesOf.Load(t); have {
		return r.([]string)
	}
	r := make([]string, t.NumField())
	free := map[int]bool{}
	for i := range r {
		r[i] = t.Field(i).Name
		free[i] = true
	}
	var missing [][2]string
	for _, k := range known[t.String()] {
		hit := false
		for i := range r {
			if r[i] == k[0] {
				hit = true
				delete(free, i)
			}
		}
		if !hit {
			missing = append(missing, k)
		}
	}
	for _, k := range missing {
		for i := range r {
			if free[i] && t.Field(i).Type.String() == k[1] {
				r[i] = k[0]
				delete(free, i)
				break
			}
		}
	}
	namesOf.Store(t, r)
	return r
}
