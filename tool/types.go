package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

type Leaf struct {
	Path string
	S    Sort
	T    types.Type
}

var leafCache = map[string][]Leaf{}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	// aliases name the same type
	if strings.Contains(s, "uint8") || strings.Contains(s, "int32") || strings.Contains(s, "interface{}") {
		s = aliasRe.ReplaceAllStringFunc(s, func(m string) string {
			switch m {
			case "uint8":
				return "byte"
			case "int32":
				return "rune"
			}
			return "any"
		})
	}
	return s
}

var aliasRe = regexp.MustCompile(`\buint8\b|\bint32\b|\binterface\{\}`)

func isBigInt(t types.Type) bool { return shortType(t) == "big.Int" }

// atomic external struct types: modelled as a single opaque value
var atomicStructs = map[string]bool{
	"big.Int": true, "big.Float": true, "sync.Mutex": true, "sync.RWMutex": true, "time.Time": true,
	"types.Transaction": true, "uint256.Int": true,
}

func leavesOf(t types.Type) []Leaf {
	k := types.TypeString(t, nil)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := computeLeaves(t)
	leafCache[k] = l
	return l
}

func computeLeaves(t types.Type) []Leaf {
	if atomicStructs[shortType(t)] {
		return []Leaf{{"", SInt, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t}}
		default:
			return []Leaf{{"", SInt, t}}
		}
	case *types.Pointer, *types.Chan, *types.Signature, *types.Interface, *types.Map:
		return []Leaf{{"", SInt, t}}
	case *types.Slice:
		return []Leaf{{"#ref", SInt, t}, {"#off", SInt, types.Typ[types.Int]}, {"#len", SInt, types.Typ[types.Int]}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				out = append(out, Leaf{joinPath(f.Name(), l.Path), l.S, l.T})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, Leaf{"#arr" + l.Path, ArrS(SInt, l.S), t})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				out = append(out, Leaf{joinPath(fmt.Sprint(i), l.Path), l.S, l.T})
			}
		}
		return out
	case *types.TypeParam:
		return []Leaf{{"", SInt, t}}
	}
	return []Leaf{{"", SInt, t}}
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	if strings.HasPrefix(b, "#") {
		return a + b
	}
	return a + "." + b
}

// fieldLeaves returns the index range of field i in leavesOf(struct)
func fieldRange(st types.Type, i int) (int, int) {
	u := st.Underlying().(*types.Struct)
	o := 0
	for j := 0; j < i; j++ {
		o += len(leavesOf(u.Field(j).Type()))
	}
	return o, o + len(leavesOf(u.Field(i).Type()))
}

func zeroOf(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	}
	return ConstArr(s, zeroOf(arrElem(s)))
}

var (
	two63 = new(big.Int).Lsh(big.NewInt(1), 63)
	two64 = new(big.Int).Lsh(big.NewInt(1), 64)
)

// intRange returns the value range of a basic integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedInt, types.UntypedRune:
		return nil, nil, false
	}
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1)), true
	}
	h := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// wf returns the well-formedness facts of a leaf value (range of machine ints, slice bounds);
// alloc bounds references.
func leafWF(l Leaf, v *Term, alloc *Term) *Term {
	if v.S != SInt {
		return True
	}
	switch {
	case strings.HasSuffix(l.Path, "#ref"):
		if alloc == nil {
			return Le(Int(0), v)
		}
		return And(Le(Int(0), v), Le(v, alloc))
	case strings.HasSuffix(l.Path, "#off") || strings.HasSuffix(l.Path, "#len"):
		return And(Le(Int(0), v), Le(v, IntB(new(big.Int).Lsh(big.NewInt(1), 60))))
	}
	if shortType(l.T) == "uint256.Int" {
		return And(Le(Int(0), v), Lt(v, IntB(new(big.Int).Lsh(big.NewInt(1), 256))))
	}
	if lo, hi, ok := intRange(l.T); ok {
		return And(Le(IntB(lo), v), Le(v, IntB(hi)))
	}
	if isRefType(l.T) {
		if alloc == nil {
			return Le(Int(0), v)
		}
		return And(Le(Int(0), v), Le(v, alloc))
	}
	return True
}

func wrapInt(t types.Type, v *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.K == KInt {
		if v.I.Cmp(lo) >= 0 && v.I.Cmp(hi) <= 0 {
			return v
		}
	}
	sz := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if lo.Sign() == 0 {
		return Mod(v, IntB(sz))
	}
	return Sub(Mod(Sub(v, IntB(lo)), IntB(sz)), IntB(new(big.Int).Neg(lo)))
}
