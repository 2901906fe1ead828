package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

const repoModule = "github.com/taurusgroup/frost-ed25519"

// Val is a Go value as a flat list of leaf terms, see layoutOf.
type Val []*Term

// Leaf describes one scalar component of a Go type.
type Leaf struct {
	path []int64 // field numbers (>=0) or array elements (encoded as -1-i)
	key  string  // heap holding such leaves
	sort Sort
	typ  types.Type
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

var layoutMemo = map[string][]Leaf{}

func qual(p *types.Package) string { return p.Name() }

func typeStr(t types.Type) string {
	return types.TypeString(deepUnalias(t), qual)
}

// deepUnalias removes type aliases, also inside composite types.
func deepUnalias(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
		return u
	case *types.Slice:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
		return u
	case *types.Array:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
		return u
	case *types.Map:
		k, e := deepUnalias(u.Key()), deepUnalias(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
		return u
	case *types.Chan:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewChan(u.Dir(), e)
		}
		return u
	default:
		return u
	}
}

func sane(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		switch r {
		case '*':
			return 'p'
		case '[':
			return 'L'
		case ']':
			return 'J'
		}
		return '_'
	}, s)
}

// opaque library types
var opaqueTypes = map[string]Sort{
	"filippo.io/edwards25519.Scalar":        SF,
	"filippo.io/edwards25519.Point":         SPt,
	"filippo.io/edwards25519/field.Element": SK,
}

func fullName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isRawByte: element type of byte sequences kept in the byte-string representation.
func isRawByte(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intRange(t types.Type) (lo, hi *big.Int, bits uint, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false
	}
	u := func(n uint) (*big.Int, *big.Int, uint, bool) {
		m := new(big.Int).Lsh(big.NewInt(1), n)
		return new(big.Int), m.Sub(m, big.NewInt(1)), n, true
	}
	s := func(n uint) (*big.Int, *big.Int, uint, bool) {
		m := new(big.Int).Lsh(big.NewInt(1), n-1)
		return new(big.Int).Neg(m), new(big.Int).Sub(m, big.NewInt(1)), 0, true
	}
	switch b.Kind() {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32:
		return s(32)
	}
	return s(64) // int, int64, untyped
}

func layoutOf(t types.Type) []Leaf {
	t = types.Unalias(t)
	name := typeStr(t)
	if l, ok := layoutMemo[name]; ok {
		return l
	}
	l := layout1(t)
	layoutMemo[name] = l
	return l
}

func leafKey(t types.Type) string { return "H_" + sane(typeStr(t)) }

func layout1(t types.Type) []Leaf {
	if s, ok := opaqueTypes[fullName(t)]; ok {
		return []Leaf{{key: leafKey(t), sort: s, typ: t}}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if !strings.HasPrefix(n.Obj().Pkg().Path(), repoModule) {
			switch n.Underlying().(type) {
			case *types.Struct:
				return nil // opaque library struct without modelled content
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Invalid {
			return nil // an unused component of a range tuple
		}
		if u.Info()&types.IsInteger != 0 {
			k := leafKey(t)
			lo, hi, _, _ := intRange(t)
			heapRange[k] = [2]*big.Int{lo, hi}
			return []Leaf{{key: k, sort: SInt, typ: t}}
		}
		if u.Info()&types.IsBoolean != 0 {
			return []Leaf{{key: leafKey(t), sort: SBool, typ: t}}
		}
		if u.Info()&types.IsString != 0 {
			return []Leaf{{key: leafKey(t), sort: SBytes, typ: t}}
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return []Leaf{{key: leafKey(t), sort: SRef, typ: t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{key: leafKey(t), sort: SRef, typ: t}}
	case *types.Slice:
		k := "H_slice_" + sane(typeStr(u.Elem()))
		big62 := new(big.Int).Lsh(big.NewInt(1), 48)
		for _, s := range []string{".off", ".len", ".cap"} {
			heapRange[k+s] = [2]*big.Int{new(big.Int), big62}
		}
		return []Leaf{
			{key: k + ".arr", sort: SRef, typ: t},
			{key: k + ".off", sort: SInt, typ: t},
			{key: k + ".len", sort: SInt, typ: t},
			{key: k + ".cap", sort: SInt, typ: t},
		}
	case *types.Interface:
		k := "H_iface_" + sane(typeStr(t))
		heapRange[k+".tag"] = [2]*big.Int{new(big.Int), nil}
		return []Leaf{{key: k + ".tag", sort: SInt, typ: t}, {key: k + ".dat", sort: SRef, typ: t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range layoutOf(u.Field(i).Type()) {
				l.path = append([]int64{int64(i)}, l.path...)
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if isRawByte(u.Elem()) {
			return []Leaf{{key: "HB", sort: SBytes, typ: t}}
		}
		if u.Len() > 64 {
			unsup("large array value %s", t)
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range layoutOf(u.Elem()) {
				l.path = append([]int64{-1 - i}, l.path...)
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, layoutOf(u.At(i).Type())...)
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

func leafAddr(base *Term, l Leaf) *Term {
	for _, p := range l.path {
		if p >= 0 {
			base = Fld(base, int(p))
		} else {
			base = Elt(base, I(-1-p))
		}
	}
	return base
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case SInt, SF, SK:
		return Num(s, 0)
	case SBool:
		return tFalse
	case SRef:
		return tNil
	case SBytes:
		return tEmpty
	case SPt:
		return App(SPt, "zeroPt")
	}
	k, v, ok := splitArr(s)
	if ok {
		_ = k
		return App(s, "constarr", zeroOfSort(v))
	}
	unsup("zero of sort %s", s)
	return nil
}

func zeroVal(t types.Type) Val {
	var out Val
	for _, l := range layoutOf(t) {
		if l.sort == SBytes && l.key == "HB" {
			out = append(out, Zeros(I(l.typ.Underlying().(*types.Array).Len())))
			continue
		}
		out = append(out, zeroOfSort(l.sort))
	}
	return out
}

// freshVal returns an unconstrained value of type t, with facts that hold for every value of the type.
func freshVal(t types.Type, base string, epoch int64) (Val, []*Term) {
	var out Val
	var facts []*Term
	for _, l := range layoutOf(t) {
		b := base
		v := Fresh(l.sort, b)
		switch l.sort {
		case SInt:
			if r, ok := heapRange[l.key]; ok {
				setRange(v, r[0], r[1])
			}
		case SRef:
			info(v).epoch = epoch
		case SBytes:
			if l.key == "HB" {
				facts = append(facts, Eq(Blen(v), I(l.typ.Underlying().(*types.Array).Len())))
			}
		}
		out = append(out, v)
	}
	facts = append(facts, wfFacts(t, out)...)
	return out, facts
}

// wfFacts: structural facts of a value (slices: 0 <= len <= cap, nil slices empty; nil interfaces).
func wfFacts(t types.Type, v Val) []*Term {
	var out []*Term
	ls := layoutOf(t)
	for i, l := range ls {
		if strings.HasSuffix(l.key, ".arr") && strings.HasPrefix(l.key, "H_slice_") {
			arr, off, ln, cp := v[i], v[i+1], v[i+2], v[i+3]
			out = append(out, Le(tZero, off), Le(tZero, ln), Le(ln, cp))
			out = append(out, Or(Not(Eq(arr, tNil)), And(Eq(cp, tZero), Eq(off, tZero))))
		}
		if strings.HasSuffix(l.key, ".tag") && strings.HasPrefix(l.key, "H_iface_") {
			out = append(out, Le(tZero, v[i]))
		}
	}
	return out
}

// fieldRange returns the leaves of field i of struct type t.
func fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(layoutOf(st.Field(j).Type()))
	}
	return lo, lo + len(layoutOf(st.Field(i).Type()))
}

// mapKeys returns the heap names of a map type.
func mapHeaps(t types.Type) (dom string, vals []Leaf, names []string) {
	m := t.Underlying().(*types.Map)
	ks := layoutOf(m.Key())
	if len(ks) != 1 || ks[0].sort != SInt {
		unsup("map key type %s", m.Key())
	}
	base := sane("map_" + typeStr(m.Key()) + "_" + typeStr(m.Elem()))
	vals = layoutOf(m.Elem())
	for i, l := range vals {
		n := fmt.Sprintf("MV_%s_%d", base, i)
		names = append(names, n)
		if r, ok := heapRange[l.key]; ok && l.sort == SInt {
			heapRange[n] = r
		}
	}
	return "MD_" + base, vals, names
}

var domSort = ArrS(SInt, SBool)

// type identifiers of interface values
var typeIDs = map[string]int64{}
var typeByID = map[int64]types.Type{}

func typeID(t types.Type) *Term {
	s := types.TypeString(deepUnalias(t), func(p *types.Package) string { return p.Path() })
	id, ok := typeIDs[s]
	if !ok {
		id = int64(len(typeIDs) + 1)
		typeIDs[s] = id
		typeByID[id] = deepUnalias(t)
	}
	return I(id)
}
