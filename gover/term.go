package main

// Hash-consed terms with normal forms.
//
// Int, F (scalars mod q, and group elements through their discrete logarithm) and
// K (the base field of the curve) share one polynomial normal form. Byte strings have
// a concatenation normal form. Memory is a set of arrays indexed by references.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SF     Sort = "F"
	SK     Sort = "K"
	SPt    Sort = "Pt"
	SRef   Sort = "Ref"
	SBytes Sort = "Bytes"
)

func ArrS(k, v Sort) Sort { return Sort("(A " + string(k) + " " + string(v) + ")") }

// splitArr returns key and value sort of an array sort.
func splitArr(s Sort) (Sort, Sort, bool) {
	t := string(s)
	if !strings.HasPrefix(t, "(A ") {
		return "", "", false
	}
	t = t[3 : len(t)-1]
	depth := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(t[:i]), Sort(t[i+1:]), true
			}
		}
	}
	return "", "", false
}

type Op uint8

const (
	OConst Op = iota // number (Int/F/K) or boolean
	OVar
	OPoly
	OApp
	OSel
	OSto
	OEq // Eq0 for number sorts: args[0]=0 ; otherwise args[0]=args[1]
	OLe // args[0] <= 0
	ONot
	OAnd
	OOr
	OIte
	OForall // bound: bvs, args[0] body
	OExists
	OLam // bound: bvs[0], args[0] body; an array
)

type Mon struct {
	c  *big.Int
	vs []*Term // sorted by id, with multiplicity; empty: constant
}

type Term struct {
	op   Op
	sort Sort
	name string
	args []*Term
	num  *big.Int
	mons []Mon
	bvs  []*Term
	id   int
	free bool // contains a bound variable
	size int
	neg  *Term // Not of it, once computed
}

var (
	internTab = map[string]*Term{}
	termCount int
	qMod, _   = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	pMod, _   = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
)

func modOf(s Sort) *big.Int {
	switch s {
	case SF:
		return qMod
	case SK:
		return pMod
	}
	return nil
}

func intern(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|", t.op, t.sort, t.name)
	if t.num != nil {
		b.WriteString(t.num.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, m := range t.mons {
		b.WriteString(";" + m.c.String())
		for _, v := range m.vs {
			fmt.Fprintf(&b, "*%d", v.id)
		}
	}
	for _, v := range t.bvs {
		fmt.Fprintf(&b, "^%d", v.id)
	}
	k := b.String()
	if o, ok := internTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	t.size = 1
	bset := map[*Term]bool{}
	for _, v := range t.bvs {
		bset[v] = true
	}
	for _, a := range t.args {
		if a.free {
			t.free = true
		}
		t.size += a.size
	}
	for _, m := range t.mons {
		for _, v := range m.vs {
			if v.free {
				t.free = true
			}
			t.size += v.size
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	if t.op == OVar && strings.HasPrefix(t.name, "?") {
		t.free = true
	}
	if t.free && len(t.bvs) > 0 {
		t.free = false
		for v := range freeBVs(t.args[0]) {
			if !bset[v] {
				t.free = true
			}
		}
	}
	internTab[k] = t
	return t
}

// freeBVs returns the bound variables occurring free in t.
func freeBVs(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.free || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out[t] = true
			return
		}
		if len(t.bvs) > 0 {
			for v := range freeBVs(t.args[0]) {
				in := false
				for _, b := range t.bvs {
					if b == v {
						in = true
					}
				}
				if !in {
					out[v] = true
				}
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.mons {
			for _, v := range m.vs {
				walk(v)
			}
		}
	}
	walk(t)
	return out
}

// ---------- leaves ----------

var (
	tTrue  = intern(&Term{op: OConst, sort: SBool, name: "true"})
	tFalse = intern(&Term{op: OConst, sort: SBool, name: "false"})
	tNil   = intern(&Term{op: OApp, sort: SRef, name: "nil"})
	tEmpty = intern(&Term{op: OApp, sort: SBytes, name: "lit:"})
	tZero  = Num(SInt, 0)
	tOne   = Num(SInt, 1)
)

func isNumSort(s Sort) bool { return s == SInt || s == SF || s == SK }

func normNum(s Sort, n *big.Int) *big.Int {
	m := modOf(s)
	if m == nil {
		return n
	}
	r := new(big.Int).Mod(n, m)
	h := new(big.Int).Rsh(m, 1)
	if r.Cmp(h) > 0 {
		r.Sub(r, m)
	}
	return r
}

func BigNum(s Sort, n *big.Int) *Term {
	return intern(&Term{op: OConst, sort: s, num: normNum(s, n)})
}
func Num(s Sort, n int64) *Term { return BigNum(s, big.NewInt(n)) }
func I(n int64) *Term           { return Num(SInt, n) }
func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func (t *Term) isNum() bool { return t.op == OConst && t.num != nil }
func (t *Term) asInt() (int64, bool) {
	if t.isNum() && t.num.IsInt64() {
		return t.num.Int64(), true
	}
	return 0, false
}

type varInfo struct {
	lo, hi   *big.Int // range for Int variables
	epoch    int64    // for Ref and heap variables: allocated not later than
	minEp    int64    // for Ref variables: allocated not earlier than (0: unknown)
	havoc    *havocInfo
	wlo, whi *Term // for wildcards: the range [wlo, whi) they stand for
}

// boundedWild: a wildcard for the integers in [lo, hi).
func boundedWild(lo, hi *Term) *Term {
	v := Var(SInt, fmt.Sprintf("?wb%d_%d", lo.id, hi.id))
	vi := info(v)
	vi.wlo, vi.whi = lo, hi
	return v
}

// wildcards renames the wildcards of a pattern apart; cond is what they range over.
func wildcards(p *Term, name string) (bv []*Term, q *Term, cond *Term) {
	m := map[*Term]*Term{}
	cond = tTrue
	for v := range freeBVs(p) {
		n := boundVar(v.sort, name)
		m[v] = n
		bv = append(bv, n)
		if vi, ok := varTab[v.name]; ok && vi.wlo != nil {
			cond = And(cond, Le(vi.wlo, n), Lt(n, vi.whi))
		}
	}
	sort.Slice(bv, func(i, j int) bool { return bv[i].id < bv[j].id })
	return bv, substB(p, m), cond
}

var varTab = map[string]*varInfo{}
var freshCnt = map[string]int{}

func Var(s Sort, name string) *Term { return intern(&Term{op: OVar, sort: s, name: name}) }

func Fresh(s Sort, base string) *Term {
	base = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			return r
		}
		return '_'
	}, base)
	freshCnt[base]++
	return Var(s, fmt.Sprintf("%s!%d", base, freshCnt[base]))
}

func info(t *Term) *varInfo {
	vi := varTab[t.name]
	if vi == nil {
		vi = &varInfo{}
		varTab[t.name] = vi
	}
	return vi
}

func setRange(t *Term, lo, hi *big.Int) {
	if t.op == OVar {
		vi := info(t)
		vi.lo, vi.hi = lo, hi
	}
}

// ---------- polynomials ----------

func monKey(vs []*Term) string {
	var b strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&b, "*%d", v.id)
	}
	return b.String()
}

func monsOf(t *Term) []Mon {
	switch {
	case t.isNum():
		if t.num.Sign() == 0 {
			return nil
		}
		return []Mon{{t.num, nil}}
	case t.op == OPoly:
		return t.mons
	}
	return []Mon{{big.NewInt(1), []*Term{t}}}
}

func mkPoly(s Sort, ms []Mon) *Term {
	acc := map[string]*Mon{}
	keys := []string{}
	for _, m := range ms {
		k := monKey(m.vs)
		if o, ok := acc[k]; ok {
			o.c = new(big.Int).Add(o.c, m.c)
		} else {
			acc[k] = &Mon{m.c, m.vs}
			keys = append(keys, k)
		}
	}
	out := []Mon{}
	for _, k := range keys {
		m := *acc[k]
		m.c = normNum(s, m.c)
		if m.c.Sign() != 0 {
			out = append(out, m)
		}
	}
	if len(out) == 0 {
		return Num(s, 0)
	}
	if len(out) == 1 {
		if len(out[0].vs) == 0 {
			return BigNum(s, out[0].c)
		}
		if len(out[0].vs) == 1 && out[0].c.IsInt64() && out[0].c.Int64() == 1 {
			return out[0].vs[0]
		}
	}
	sort.Slice(out, func(i, j int) bool { return lessVs(out[i].vs, out[j].vs) })
	return intern(&Term{op: OPoly, sort: s, mons: out})
}

func lessVs(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

func Add(ts ...*Term) *Term {
	var ms []Mon
	for _, t := range ts {
		if !isNumSort(t.sort) {
			panic("Add: sort " + string(t.sort) + " " + t.String())
		}
		if t.sort != ts[0].sort {
			panic(fmt.Sprintf("Add: sorts %s %s: %s, %s", ts[0].sort, t.sort, ts[0], t))
		}
		ms = append(ms, monsOf(t)...)
	}
	return mkPoly(ts[0].sort, ms)
}

func scale(t *Term, c *big.Int) *Term {
	ms := monsOf(t)
	out := make([]Mon, len(ms))
	for i, m := range ms {
		out[i] = Mon{new(big.Int).Mul(m.c, c), m.vs}
	}
	return mkPoly(t.sort, out)
}

func Neg(t *Term) *Term    { return scale(t, big.NewInt(-1)) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func AddI(a *Term, n int64) *Term {
	if n == 0 {
		return a
	}
	return Add(a, Num(a.sort, n))
}

func Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Mul: sorts %s %s", a.sort, b.sort))
	}
	// keep multiplication by an if-then-else readable: push through only for constants
	var out []Mon
	for _, x := range monsOf(a) {
		for _, y := range monsOf(b) {
			vs := append(append([]*Term{}, x.vs...), y.vs...)
			sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
			if t := pushIte(a.sort, new(big.Int).Mul(x.c, y.c), vs); t != nil {
				out = append(out, monsOf(t)...)
				continue
			}
			out = append(out, Mon{new(big.Int).Mul(x.c, y.c), vs})
		}
	}
	return mkPoly(a.sort, out)
}

// pushIte rewrites a product with a factor ite(p, b, 0) (or ite(p, 0, b)) into the ite of the products; nil if there is none.
func pushIte(sort Sort, c *big.Int, vs []*Term) *Term {
	if len(vs) < 2 {
		return nil
	}
	for i, v := range vs {
		if v.op != OIte {
			continue
		}
		zero := func(t *Term) bool { return t.isNum() && t.num.Sign() == 0 }
		p, q := v.args[1], v.args[2]
		if !zero(p) && !zero(q) {
			continue
		}
		rest := append(append([]*Term{}, vs[:i]...), vs[i+1:]...)
		m := mkPoly(sort, []Mon{{big.NewInt(1), rest}})
		r := Ite(v.args[0], Mul(p, m), Mul(q, m))
		return Mul(BigNum(sort, c), r)
	}
	return nil
}

// Inv is the inverse in F or K (0 for 0).
func Inv(t *Term) *Term {
	m := modOf(t.sort)
	if t.isNum() {
		if t.num.Sign() == 0 {
			return t
		}
		return BigNum(t.sort, new(big.Int).ModInverse(new(big.Int).Mod(t.num, m), m))
	}
	if t.op == OPoly && len(t.mons) == 1 {
		r := BigNum(t.sort, new(big.Int).ModInverse(new(big.Int).Mod(t.mons[0].c, m), m))
		for _, v := range t.mons[0].vs {
			r = Mul(r, Inv(v))
		}
		return r
	}
	if t.op == OApp && t.name == "inv" {
		return t.args[0]
	}
	return intern(&Term{op: OApp, sort: t.sort, name: "inv", args: []*Term{t}})
}

// Range returns bounds of an Int term (nil: unbounded).
func Range(t *Term) (lo, hi *big.Int) {
	if t.sort != SInt {
		return nil, nil
	}
	switch t.op {
	case OConst:
		return t.num, t.num
	case OVar:
		if vi, ok := varTab[t.name]; ok {
			return vi.lo, vi.hi
		}
	case OIte:
		l1, h1 := Range(t.args[1])
		l2, h2 := Range(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case OSel:
		return heapElemRange(t.args[0])
	case OPoly:
		lo, hi = new(big.Int), new(big.Int)
		for _, m := range t.mons {
			var l, h *big.Int
			if len(m.vs) == 0 {
				l, h = big.NewInt(1), big.NewInt(1)
			} else {
				l, h = Range(m.vs[0])
				for _, v := range m.vs[1:] {
					l2, h2 := Range(v)
					// only products of non-negative factors are bounded
					if l == nil || l2 == nil || l.Sign() < 0 || l2.Sign() < 0 {
						l, h = nil, nil
						break
					}
					l = new(big.Int).Mul(l, l2)
					if h != nil && h2 != nil {
						h = new(big.Int).Mul(h, h2)
					} else {
						h = nil
					}
				}
			}
			if m.c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(m.c, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(m.c, h))
				}
			}
		}
		return
	case OApp:
		switch t.name {
		case "blen", "card":
			return new(big.Int), nil
		case "at":
			return new(big.Int), big.NewInt(255)
		case "idiv":
			l, h := Range(t.args[0])
			c := t.args[1].num
			if l != nil {
				lo = fdiv(l, c)
			}
			if h != nil {
				hi = fdiv(h, c)
			}
			return
		}
		if r, ok := appRange[t.name]; ok {
			return r[0], r[1]
		}
	}
	return nil, nil
}

var appRange = map[string][2]*big.Int{}

// heapRange: value ranges of typed heaps, by heap variable name prefix up to '!'
var heapRange = map[string][2]*big.Int{}

func heapElemRange(h *Term) (lo, hi *big.Int) {
	for {
		switch h.op {
		case OSto, OSel:
			h = h.args[0]
			continue
		case OVar:
			n := h.name
			if i := strings.IndexByte(n, '!'); i >= 0 {
				n = n[:i]
			}
			if r, ok := heapRange[n]; ok {
				return r[0], r[1]
			}
		case OApp:
			if r, ok := heapRange[h.name]; ok {
				return r[0], r[1]
			}
		}
		return nil, nil
	}
}

func fdiv(a, b *big.Int) *big.Int { // floor division, b > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// IDiv is floor division by a positive constant.
func IDiv(t *Term, c *big.Int) *Term {
	if c.Cmp(big.NewInt(1)) == 0 {
		return t
	}
	var quo, rem []Mon
	for _, m := range monsOf(t) {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(m.c, c, r)
		if len(m.vs) > 0 && r.Sign() != 0 && q.Sign() != 0 {
			// keep the coefficient whole unless divisible
			q, r = new(big.Int), m.c
		}
		if q.Sign() != 0 {
			quo = append(quo, Mon{q, m.vs})
		}
		if r.Sign() != 0 {
			rem = append(rem, Mon{r, m.vs})
		}
	}
	q, r := mkPoly(SInt, quo), mkPoly(SInt, rem)
	lo, hi := Range(r)
	if lo != nil && hi != nil {
		l, h := fdiv(lo, c), fdiv(hi, c)
		if l.Cmp(h) == 0 {
			return Add(q, BigNum(SInt, l))
		}
	}
	if r.op == OApp && r.name == "idiv" {
		return Add(q, IDiv(r.args[0], new(big.Int).Mul(c, r.args[1].num)))
	}
	return Add(q, intern(&Term{op: OApp, sort: SInt, name: "idiv", args: []*Term{r, BigNum(SInt, c)}}))
}

func IMod(t *Term, c *big.Int) *Term { return Sub(t, scale(IDiv(t, c), c)) }

// Wrap reduces t to an unsigned machine integer of the given width.
func Wrap(t *Term, bits uint) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	lo, hi := Range(t)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return t
	}
	return IMod(t, m)
}

// toF maps integers to scalars, homomorphically.
func toF(t *Term) *Term {
	var r []*Term
	r = append(r, Num(SF, 0))
	for _, m := range monsOf(t) {
		x := BigNum(SF, m.c)
		for _, v := range m.vs {
			x = Mul(x, intern(&Term{op: OApp, sort: SF, name: "toF", args: []*Term{v}}))
		}
		r = append(r, x)
	}
	return Add(r...)
}

// fromF inverts toF on polynomials made of toF atoms only.
func fromF(t *Term) *Term {
	var r = []*Term{tZero}
	for _, m := range monsOf(t) {
		x := BigNum(SInt, m.c)
		for _, v := range m.vs {
			if v.op != OApp || v.name != "toF" {
				return nil
			}
			x = Mul(x, v.args[0])
		}
		r = append(r, x)
	}
	return Add(r...)
}

// ---------- booleans ----------

func Not(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.op == ONot:
		return t.args[0]
	case t.neg != nil:
		return t.neg
	case t.op == OLe: // not (p <= 0)  <=>  1 - p <= 0
		t.neg = Le0(Sub(tOne, t.args[0]))
		return t.neg
	}
	t.neg = intern(&Term{op: ONot, sort: SBool, args: []*Term{t}})
	return t.neg
}

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || set[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[Not(t)] {
			return false
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if t.sort != SBool {
			panic("boolean operand has sort " + string(t.sort) + ": " + t.String())
		}
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: op, sort: SBool, args: out})
}

func And(ts ...*Term) *Term    { return nary(OAnd, tTrue, tFalse, ts) }
func Or(ts ...*Term) *Term     { return nary(OOr, tFalse, tTrue, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }
func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		return And(Implies(c, a), Or(c, b))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	return intern(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// splitIte finds a single if-then-else atom in a polynomial and decides f on both branches.
func splitIte(p *Term, f func(*Term) *Term) *Term {
	var it *Term
	n := 0
	for _, m := range monsOf(p) {
		for _, v := range m.vs {
			if v.op == OIte {
				if it != nil && it != v {
					return nil
				}
				it = v
				n++
			}
		}
	}
	if it == nil || n > 4 {
		return nil
	}
	rep := func(x *Term) *Term {
		acc := []*Term{Num(p.sort, 0)}
		for _, m := range monsOf(p) {
			y := BigNum(p.sort, m.c)
			for _, v := range m.vs {
				if v == it {
					v = x
				}
				y = Mul(y, v)
			}
			acc = append(acc, y)
		}
		return Add(acc...)
	}
	a, b := f(rep(it.args[1])), f(rep(it.args[2]))
	if a.op == OConst || b.op == OConst {
		return Or(And(it.args[0], a), And(Not(it.args[0]), b))
	}
	return nil
}

func Le0(p *Term) *Term {
	if p.isNum() {
		return B(p.num.Sign() <= 0)
	}
	if r := splitIte(p, Le0); r != nil {
		return r
	}
	lo, hi := Range(p)
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	// divide by the gcd of the coefficients
	ms := monsOf(p)
	g := new(big.Int)
	var c *big.Int = new(big.Int)
	for _, m := range ms {
		if len(m.vs) == 0 {
			c = m.c
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		var out []Mon
		for _, m := range ms {
			if len(m.vs) > 0 {
				out = append(out, Mon{new(big.Int).Quo(m.c, g), m.vs})
			}
		}
		// g*r + c <= 0  <=>  r <= floor(-c/g)
		k := fdiv(new(big.Int).Neg(c), g)
		p = Sub(mkPoly(SInt, out), BigNum(SInt, k))
	}
	return intern(&Term{op: OLe, sort: SBool, args: []*Term{p}})
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(a, tOne, Neg(b))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %s and %s: %s = %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SInt, SF, SK:
		return eq0(Sub(a, b))
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	case SRef:
		return eqRef(a, b)
	case SBytes:
		return eqBytes(a, b)
	}
	return eqAtom(a, b)
}

func eqAtom(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func eq0(p *Term) *Term {
	if p.isNum() {
		return B(p.num.Sign() == 0)
	}
	if r := splitIte(p, eq0); r != nil {
		return r
	}
	s := p.sort
	if s == SF {
		if ip := fromF(p); ip != nil {
			lo, hi := Range(ip)
			nq := new(big.Int).Neg(qMod)
			if lo != nil && hi != nil && lo.Cmp(nq) > 0 && hi.Cmp(qMod) < 0 {
				return eq0(ip)
			}
		}
		// a single monomial with inverses of atoms only: x*inv(y)=0 <=> x=0 or y=0 is left alone
	}
	if s == SInt {
		lo, hi := Range(p)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		// gcd test
		ms := monsOf(p)
		g := new(big.Int)
		c := new(big.Int)
		for _, m := range ms {
			if len(m.vs) == 0 {
				c = m.c
			} else {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
			}
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			if new(big.Int).Mod(c, g).Sign() != 0 {
				return tFalse
			}
			out := make([]Mon, len(ms))
			for i, m := range ms {
				out[i] = Mon{new(big.Int).Quo(m.c, g), m.vs}
			}
			p = mkPoly(s, out)
		}
	}
	ms := monsOf(p)
	lead := ms[len(ms)-1].c
	if lead.Sign() < 0 {
		p = Neg(p)
	}
	return intern(&Term{op: OEq, sort: SBool, args: []*Term{p}})
}

func Quant(op Op, bvs []*Term, body *Term) *Term {
	if !body.free {
		return body
	}
	fv := freeBVs(body)
	var used []*Term
	for _, v := range bvs {
		if fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	if op == OForall && body.op == OAnd {
		var out []*Term
		for _, a := range body.args {
			out = append(out, Quant(op, bvs, a))
		}
		return And(out...)
	}
	return intern(&Term{op: op, sort: SBool, args: []*Term{body}, bvs: used})
}

// Lam is the array mapping v to body.
func Lam(v, body *Term) *Term {
	if body.op == OSel && body.args[1] == v && (!body.args[0].free || !freeBVs(body.args[0])[v]) {
		return body.args[0]
	}
	s := ArrS(v.sort, body.sort)
	if !body.free || !freeBVs(body)[v] {
		return App(s, "constarr", body)
	}
	if hasNonce(body) {
		// a lambda inside could not have its canonical name so far: try again with v out of the way
		if strings.HasPrefix(v.name, "?L") {
			w := nonce(v)
			body = substB(body, map[*Term]*Term{v: w})
			v = w
		}
		body = recanon(body)
	}
	d := 0
	walkTerms(body, map[*Term]bool{}, func(t *Term) {
		if t.op == OLam {
			var k int
			fmt.Sscanf(t.bvs[0].name, "?L%d", &k)
			if k >= d {
				d = k + 1
			}
		}
	})
	c := Var(v.sort, fmt.Sprintf("?L%d", d))
	if c != v && freeBVs(body)[c] {
		c = nonce(v)
	}
	if c != v {
		body = substB(body, map[*Term]*Term{v: c})
	}
	return intern(&Term{op: OLam, sort: s, args: []*Term{body}, bvs: []*Term{c}})
}

var nonceSer int

// nonce is a bound variable no other term has.
func nonce(v *Term) *Term {
	nonceSer++
	return Var(v.sort, fmt.Sprintf("?N%d", nonceSer))
}

func isNonceLam(t *Term) bool { return t.op == OLam && strings.HasPrefix(t.bvs[0].name, "?N") }

func hasNonce(t *Term) bool {
	if nonceSer == 0 {
		return false
	}
	r := false
	walkTerms(t, map[*Term]bool{}, func(x *Term) { r = r || isNonceLam(x) })
	return r
}

// recanon gives the lambdas with a nonce for a variable their canonical names, where those are free.
func recanon(t *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if isNonceLam(x) {
			return Lam(x.bvs[0], rebuild(x.args[0], f, memo))
		}
		return nil
	}
	return rebuild(t, f, memo)
}

// substB substitutes bound variables.
func substB(t *Term, m map[*Term]*Term) *Term {
	return substAvoid(t, m, func(x *Term) *Term {
		if !x.free {
			return x
		}
		return m[x]
	})
}

// substAvoid substitutes by f, whose results are those of m; a binder of a variable free in one of them is renamed first.
func substAvoid(t *Term, m map[*Term]*Term, f func(*Term) *Term) *Term {
	var avoid map[*Term]bool
	for _, r := range m {
		if r.free {
			for v := range freeBVs(r) {
				if avoid == nil {
					avoid = map[*Term]bool{}
				}
				avoid[v] = true
			}
		}
	}
	memo := map[*Term]*Term{}
	if avoid == nil {
		return rebuild(t, f, memo)
	}
	var g func(x *Term) *Term
	g = func(x *Term) *Term {
		if r := f(x); r != nil {
			return r
		}
		ren := map[*Term]*Term{}
		for _, b := range x.bvs {
			if avoid[b] {
				ren[b] = nonce(b)
			}
		}
		if len(ren) == 0 {
			return nil
		}
		body := rebuild(x.args[0], func(y *Term) *Term { return ren[y] }, map[*Term]*Term{})
		body = rebuild(body, g, memo)
		if x.op == OLam {
			return Lam(ren[x.bvs[0]], body)
		}
		bvs := make([]*Term, len(x.bvs))
		for i, b := range x.bvs {
			bvs[i] = b
			if ren[b] != nil {
				bvs[i] = ren[b]
			}
		}
		return Quant(x.op, bvs, body)
	}
	return rebuild(t, g, memo)
}

// ---------- references ----------

func App(s Sort, name string, args ...*Term) *Term {
	return intern(&Term{op: OApp, sort: s, name: name, args: args})
}

func Obj(n int64) *Term          { return App(SRef, "obj", I(n)) }
func Glob(name string) *Term     { return App(SRef, "glob:"+name) }
func Fld(b *Term, k int) *Term   { return App(SRef, "fld", b, I(int64(k))) }
func Elt(a, i *Term) *Term       { return App(SRef, "elt", a, i) }
func (t *Term) is(n string) bool { return t.op == OApp && t.name == n }
func isGlob(t *Term) bool        { return t.op == OApp && strings.HasPrefix(t.name, "glob:") }
func isFunc(t *Term) bool        { return t.op == OApp && strings.HasPrefix(t.name, "func:") }

func refRoot(t *Term) *Term {
	for t.is("fld") || t.is("elt") {
		t = t.args[0]
	}
	return t
}

const noEpoch = int64(1) << 60

// epochOf bounds the allocation time of what an opaque reference points to.
func epochOf(t *Term) int64 {
	t = refRoot(t)
	switch {
	case t.is("nil") || isGlob(t) || isFunc(t):
		return -1 << 60
	case t.is("obj"):
		return t.args[0].num.Int64()
	case t.is("clo"):
		return t.args[0].num.Int64()
	case t.op == OVar:
		if strings.HasPrefix(t.name, "?") {
			return noEpoch
		}
		if vi, ok := varTab[t.name]; ok {
			return vi.epoch
		}
		return 0
	case t.op == OIte:
		a, b := epochOf(t.args[1]), epochOf(t.args[2])
		if a > b {
			return a
		}
		return b
	case t.op == OSel:
		// memory at an address holds what was there in time; an object made by a callee may
		// refer to what was made with it
		e := heapEpoch(t.args[0])
		if t.args[1].sort == SRef {
			if x := epochOf(t.args[1]); x > e {
				e = x
			}
		}
		return e
	case t.op == OApp:
		if strings.HasPrefix(t.name, "dat:") { // constant boxed data
			return 0
		}
		e := int64(-1 << 60)
		for _, a := range t.args {
			var x int64
			if a.sort == SRef {
				x = epochOf(a)
			} else {
				x = heapEpoch(a)
			}
			if x > e {
				e = x
			}
		}
		return e
	}
	return noEpoch
}

var heapEpochMemo = map[*Term]int64{}

func heapEpoch(h *Term) int64 {
	if e, ok := heapEpochMemo[h]; ok {
		return e
	}
	var e int64
	switch h.op {
	case OVar:
		if strings.HasPrefix(h.name, "?") {
			e = noEpoch
		} else if vi, ok := varTab[h.name]; ok {
			e = vi.epoch
		}
	case OSto:
		e = heapEpoch(h.args[0])
		var x int64
		if h.args[2].sort == SRef {
			x = epochOf(h.args[2])
		} else if _, vs, ok := splitArr(h.args[2].sort); ok && (vs == SRef) {
			x = heapEpoch(h.args[2])
		}
		if x > e {
			e = x
		}
	case OSel:
		e = heapEpoch(h.args[0])
		if h.args[1].sort == SRef {
			if x := epochOf(h.args[1]); x > e {
				e = x
			}
		}
	case OIte:
		e = heapEpoch(h.args[1])
		if x := heapEpoch(h.args[2]); x > e {
			e = x
		}
	default:
		e = 0
	}
	heapEpochMemo[h] = e
	return e
}

func isCtor(t *Term) bool {
	return t.is("nil") || t.is("obj") || t.is("fld") || t.is("elt") || isGlob(t) || isFunc(t)
}

// distinctRef: provably different references.
func distinctRef(a, b *Term) bool { return eqRef(a, b) == tFalse }

func eqRef(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OIte && isCtor(b) {
		return Or(And(a.args[0], eqRef(a.args[1], b)), And(Not(a.args[0]), eqRef(a.args[2], b)))
	}
	if b.op == OIte && isCtor(a) {
		return eqRef(b, a)
	}
	if isCtor(a) && isCtor(b) {
		if a.name != b.name {
			return tFalse
		}
		switch a.name {
		case "obj":
			return tFalse // different numbers
		case "fld":
			if a.args[1] != b.args[1] {
				return tFalse
			}
			return eqRef(a.args[0], b.args[0])
		case "elt":
			i := Eq(a.args[1], b.args[1])
			if i == tFalse {
				return tFalse
			}
			return And(eqRef(a.args[0], b.args[0]), i)
		}
		return tFalse
	}
	// allocation order
	if epochOf(a) < minEpochOf(b) || epochOf(b) < minEpochOf(a) {
		return tFalse
	}
	return eqAtom(a, b)
}

// minEpochOf bounds the allocation time from below.
func minEpochOf(t *Term) int64 {
	t = refRoot(t)
	switch {
	case t.is("obj"):
		return t.args[0].num.Int64()
	case t.op == OVar:
		if vi, ok := varTab[t.name]; ok && vi.minEp != 0 {
			return vi.minEp
		}
	case t.op == OIte:
		a, b := minEpochOf(t.args[1]), minEpochOf(t.args[2])
		if a < b {
			return a
		}
		return b
	}
	return -1 << 61
}

// ---------- memory ----------

type havocInfo struct {
	old  *Term
	pats []*Term // references that may have changed; ?-variables are wildcards
	all  bool    // anything may have changed
}

func Sel(h, i *Term) *Term {
	orig := h
	for {
		switch h.op {
		case OSto:
			e := Eq(h.args[1], i)
			if e == tTrue {
				return h.args[2]
			}
			if e == tFalse {
				h = h.args[0]
				orig = h
				continue
			}
			// undecided: look through only if the rest is the same either way
		case OLam:
			return substB(h.args[0], map[*Term]*Term{h.bvs[0]: i})
		case OVar:
			if i.sort == SRef {
				if r := baseSel(h, i); r != nil {
					return r
				}
			}
			if vi, ok := varTab[h.name]; ok && vi.havoc != nil && !vi.havoc.all {
				hit := false
				for _, p := range vi.havoc.pats {
					if !distinctPat(p, i) {
						hit = true
						break
					}
				}
				if !hit {
					h = vi.havoc.old
					orig = h
					continue
				}
			}
		case OApp:
			if h.name == "constarr" {
				return h.args[0]
			}
			if f, ok := aselHook[h.name]; ok {
				if r := f(h, i); r != nil {
					return r
				}
			}
		case OIte:
			a, b := Sel(h.args[1], i), Sel(h.args[2], i)
			return Ite(h.args[0], a, b)
		}
		break
	}
	_, vs, ok := splitArr(orig.sort)
	if !ok {
		panic("Sel on " + string(orig.sort) + ": " + orig.String())
	}
	return intern(&Term{op: OSel, sort: vs, args: []*Term{orig, i}})
}

// objInit describes memory of objects allocated by the function under verification that
// has not been written through a heap term: new memory is zero, or (append) a copy.
type objInit struct {
	zero     bool
	zeroHB   *Term // zero value of [N]byte leaves
	snap     map[string]*Term
	arr, off *Term
	constant map[string]map[*Term]*Term // package initialisers: heap key -> address -> value
}

var objInits = map[int64]*objInit{}

func heapKeyOf(name string) string {
	if i := strings.IndexByte(name, '!'); i >= 0 {
		return name[:i]
	}
	return name
}

func baseSel(h, i *Term) *Term {
	root := refRoot(i)
	if isGlob(root) || root.is("obj") && root.args[0].num.Sign() < 0 {
		if v := constMem(h, i); v != nil {
			return v
		}
		return nil
	}
	if !root.is("obj") {
		return nil
	}
	n := root.args[0].num.Int64()
	oi := objInits[n]
	if oi == nil {
		return nil
	}
	ep := int64(0)
	if vi, ok := varTab[h.name]; ok {
		ep = vi.epoch
	}
	if n <= ep {
		return nil
	}
	_, vs, _ := splitArr(h.sort)
	if oi.zero {
		if vs == SBytes && heapKeyOf(h.name) == "HB" {
			return oi.zeroHB
		}
		return zeroOfSort(vs)
	}
	if oi.snap != nil {
		src := oi.snap[heapKeyOf(h.name)]
		if src == nil {
			src = Var(h.sort, heapKeyOf(h.name)+"!0")
		}
		// replace elt(obj n, j) by elt(arr, off+j)
		var re func(t *Term) *Term
		re = func(t *Term) *Term {
			if t.is("elt") && t.args[0] == root {
				return Elt(oi.arr, Add(oi.off, t.args[1]))
			}
			if t.is("elt") {
				if b := re(t.args[0]); b != nil {
					return Elt(b, t.args[1])
				}
			}
			if t.is("fld") {
				if b := re(t.args[0]); b != nil {
					return App(SRef, "fld", b, t.args[1])
				}
			}
			return nil
		}
		if a := re(i); a != nil {
			return Sel(src, a)
		}
	}
	return nil
}

// constMem: contents of effectively constant package variables and what they point to.
var constMem = func(h, addr *Term) *Term { return nil }

var aselHook = map[string]func(h, i *Term) *Term{}

// distinctPat: no instance of the pattern equals i.
func distinctPat(p, i *Term) bool {
	if p.sort == SRef {
		return eqRef(p, i) == tFalse
	}
	return Eq(p, i) == tFalse
}

func Sto(h, i, v *Term) *Term {
	if Sel(h, i) == v {
		return h
	}
	if h.op == OSto {
		e := Eq(h.args[1], i)
		if e == tTrue {
			return Sto(h.args[0], i, v)
		}
	}
	return intern(&Term{op: OSto, sort: h.sort, args: []*Term{h, i, v}})
}

// HavocHeap returns a fresh heap equal to h outside the patterns.
func HavocHeap(h *Term, base string, pats []*Term, all bool, epoch int64) *Term {
	// exact addresses become stores of fresh values
	v := Fresh(h.sort, base)
	vi := info(v)
	vi.epoch = epoch
	vi.havoc = &havocInfo{old: h, pats: pats, all: all}
	return v
}

// ---------- bytes ----------

func Lit(s string) *Term {
	return intern(&Term{op: OApp, sort: SBytes, name: "lit:" + s})
}
func isLit(t *Term) (string, bool) {
	if t.op == OApp && strings.HasPrefix(t.name, "lit:") {
		return t.name[4:], true
	}
	return "", false
}

var fixedLen = map[string]int64{}

func Blen(b *Term) *Term {
	if s, ok := isLit(b); ok {
		return I(int64(len(s)))
	}
	if b.op == OApp {
		switch b.name {
		case "u8":
			return tOne
		case "zeros":
			return b.args[0]
		case "sub":
			return b.args[2]
		case "cat":
			var ls []*Term
			for _, a := range b.args {
				ls = append(ls, Blen(a))
			}
			return Add(ls...)
		}
		if n, ok := fixedLen[b.name]; ok {
			return I(n)
		}
	}
	if b.op == OIte {
		x, y := Blen(b.args[1]), Blen(b.args[2])
		if x == y {
			return x
		}
		return Ite(b.args[0], x, y)
	}
	if f, ok := blenHook[b.name]; ok && b.op == OApp {
		if r := f(b); r != nil {
			return r
		}
	}
	if b.op == OSel {
		if l := selLen(b); l != nil {
			return l
		}
	}
	return App(SInt, "blen", b)
}

var blenHook = map[string]func(b *Term) *Term{}

// selLen: the length of a byte array in memory never changes.
func selLen(b *Term) *Term {
	h := b.args[0]
	for {
		switch h.op {
		case OSto:
			h = h.args[0]
			continue
		case OVar:
			if vi, ok := varTab[h.name]; ok && vi.havoc != nil {
				h = vi.havoc.old
				continue
			}
		}
		break
	}
	if h == b.args[0] {
		return nil
	}
	x := Sel(h, b.args[1])
	if x == b {
		return nil
	}
	if epochOf(b.args[1]) > heapEpoch(h) {
		return nil // allocated later
	}
	return Blen(x)
}

func U8(x *Term) *Term {
	if n, ok := x.asInt(); ok {
		return Lit(string([]byte{byte(n)}))
	}
	if x.is("at") {
		return SubB(x.args[0], x.args[1], tOne)
	}
	return App(SBytes, "u8", x)
}

func Zeros(n *Term) *Term {
	if k, ok := n.asInt(); ok && k <= 4096 {
		if k < 0 {
			k = 0
		}
		return Lit(strings.Repeat("\x00", int(k)))
	}
	return App(SBytes, "zeros", n)
}

func bparts(b *Term) []*Term {
	if b == tEmpty {
		return nil
	}
	if b.is("cat") {
		return b.args
	}
	return []*Term{b}
}

func Cat(ts ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p == tEmpty {
			return
		}
		if l, ok := Blen(p).asInt(); ok && l == 0 {
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if a, ok := isLit(q); ok {
				if b, ok := isLit(p); ok {
					out[n-1] = Lit(a + b)
					return
				}
			}
			if q.is("sub") && p.is("sub") && q.args[0] == p.args[0] && Add(q.args[1], q.args[2]) == p.args[1] {
				m := SubB(q.args[0], q.args[1], Add(q.args[2], p.args[2]))
				out = out[:n-1]
				for _, x := range bparts(m) {
					push(x)
				}
				return
			}
		}
		out = append(out, p)
	}
	for _, t := range ts {
		if t.sort != SBytes {
			panic("Cat: " + t.String())
		}
		for _, p := range bparts(t) {
			push(p)
		}
	}
	if len(out) == 0 {
		return tEmpty
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: OApp, sort: SBytes, name: "cat", args: out})
}

func provesLe(a, b *Term) bool { return Le(a, b) == tTrue }

func SubB(b, off, n *Term) *Term {
	if k, ok := n.asInt(); ok && k <= 0 {
		return tEmpty
	}
	if off == tZero && n == Blen(b) {
		return b
	}
	if s, ok := isLit(b); ok {
		o, ok1 := off.asInt()
		k, ok2 := n.asInt()
		if ok1 && ok2 && o >= 0 && o+k <= int64(len(s)) {
			return Lit(s[o : o+k])
		}
	}
	switch {
	case b.is("sub"):
		return SubB(b.args[0], Add(b.args[1], off), n)
	case b.is("zeros"):
		return Zeros(n)
	case b.op == OIte:
		return Ite(b.args[0], SubB(b.args[1], off, n), SubB(b.args[2], off, n))
	case b.is("cat"):
		// skip whole parts
		parts := b.args
		for len(parts) > 0 {
			l := Blen(parts[0])
			if provesLe(l, off) {
				off = Sub(off, l)
				parts = parts[1:]
				continue
			}
			break
		}
		// take whole parts
		var out []*Term
		rest := n
		i := 0
		if off == tZero {
			for i < len(parts) {
				l := Blen(parts[i])
				if provesLe(l, rest) {
					out = append(out, parts[i])
					rest = Sub(rest, l)
					i++
					continue
				}
				break
			}
			if rest == tZero {
				return Cat(out...)
			}
			if i < len(parts) && provesLe(rest, Blen(parts[i])) {
				out = append(out, SubB(parts[i], tZero, rest))
				return Cat(out...)
			}
			if len(out) > 0 && i < len(parts) {
				out = append(out, SubB(Cat(parts[i:]...), tZero, rest))
				return Cat(out...)
			}
		} else if len(parts) > 0 {
			l := Blen(parts[0])
			if provesLe(Add(off, n), l) {
				return SubB(parts[0], off, n)
			}
			if provesLe(off, l) && provesLe(l, Add(off, n)) {
				first := SubB(parts[0], off, Sub(l, off))
				return Cat(first, SubB(Cat(parts[1:]...), tZero, Sub(n, Sub(l, off))))
			}
		}
		nb := Cat(parts...)
		if nb != b {
			return SubB(nb, off, n)
		}
	}
	return intern(&Term{op: OApp, sort: SBytes, name: "sub", args: []*Term{b, off, n}})
}

func At(b, i *Term) *Term {
	if s, ok := isLit(b); ok {
		if k, ok := i.asInt(); ok && k >= 0 && k < int64(len(s)) {
			return I(int64(s[k]))
		}
	}
	switch {
	case b.is("u8") && i == tZero:
		return b.args[0]
	case b.is("sub"):
		return At(b.args[0], Add(b.args[1], i))
	case b.is("zeros"):
		return tZero
	case b.op == OIte:
		return Ite(b.args[0], At(b.args[1], i), At(b.args[2], i))
	case b.is("cat"):
		parts := b.args
		for len(parts) > 0 {
			l := Blen(parts[0])
			if provesLe(l, i) {
				i = Sub(i, l)
				parts = parts[1:]
				continue
			}
			if Lt(i, l) == tTrue {
				return At(parts[0], i)
			}
			break
		}
		if len(parts) > 0 && len(parts) < len(b.args) {
			return At(Cat(parts...), i)
		}
	}
	return App(SInt, "at", b, i)
}

// Splice replaces b[i : i+len(x)] by x.
func Splice(b, i, x *Term) *Term {
	l := Blen(x)
	e := Add(i, l)
	return Cat(SubB(b, tZero, i), x, SubB(b, e, Sub(Blen(b), e)))
}

// injective byte encodings
var injective = map[string]bool{}

func eqBytes(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	la, lb := Blen(a), Blen(b)
	if Eq(la, lb) == tFalse {
		return tFalse
	}
	if a.op == OIte && (b.op != OIte) {
		return Or(And(a.args[0], eqBytes(a.args[1], b)), And(Not(a.args[0]), eqBytes(a.args[2], b)))
	}
	if b.op == OIte && (a.op != OIte) {
		return eqBytes(b, a)
	}
	pa, pb := bparts(a), bparts(b)
	if len(pa) <= 1 && len(pb) <= 1 {
		return eqPart(a, b)
	}
	// align from the front
	var conj []*Term
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		lx, ly := Blen(x), Blen(y)
		switch {
		case lx == ly:
			conj = append(conj, eqPart(x, y))
			pa, pb = pa[1:], pb[1:]
		case provesLe(lx, ly):
			conj = append(conj, eqPart(x, SubB(y, tZero, lx)))
			r := bparts(SubB(y, lx, Sub(ly, lx)))
			pa, pb = pa[1:], append(append([]*Term{}, r...), pb[1:]...)
		case provesLe(ly, lx):
			conj = append(conj, eqPart(SubB(x, tZero, ly), y))
			r := bparts(SubB(x, ly, Sub(lx, ly)))
			pa, pb = append(append([]*Term{}, r...), pa[1:]...), pb[1:]
		default:
			// equal tails?
			ra, rb := Cat(pa...), Cat(pb...)
			conj = append(conj, eqAtom(ra, rb))
			return And(conj...)
		}
		if conj[len(conj)-1] == tFalse {
			return tFalse
		}
	}
	ra, rb := Cat(pa...), Cat(pb...)
	if ra != tEmpty || rb != tEmpty {
		conj = append(conj, Eq(Blen(ra), Blen(rb)))
	}
	return And(conj...)
}

func eqPart(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.is("cat") || y.is("cat") {
		return eqBytes(x, y)
	}
	if x.op == OApp && y.op == OApp && x.name == y.name && injective[x.name] {
		var c []*Term
		for i := range x.args {
			c = append(c, Eq(x.args[i], y.args[i]))
		}
		return And(c...)
	}
	if n, ok := Blen(x).asInt(); ok && n <= 8 {
		if _, l := isLit(x); n == 1 || l || isLitT(y) || x.is("u8") || y.is("u8") {
			c := []*Term{Eq(Blen(x), Blen(y))}
			for i := int64(0); i < n; i++ {
				c = append(c, Eq(At(x, I(i)), At(y, I(i))))
			}
			return And(c...)
		}
	}
	if a, ok := isLit(x); ok {
		if b, ok := isLit(y); ok && a != b {
			return tFalse
		}
	}
	return eqAtom(x, y)
}

func isLitT(t *Term) bool { _, ok := isLit(t); return ok }

// ---------- traversal ----------

// rebuild re-normalises t after replacing terms by f (nil: keep).
func rebuild(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	var r *Term
	rb := func(x *Term) *Term { return rebuild(x, f, memo) }
	switch t.op {
	case OConst, OVar:
		r = t
	case OPoly:
		same := true
		for _, m := range t.mons {
			for _, v := range m.vs {
				if rb(v) != v {
					same = false
				}
			}
		}
		if same {
			r = t
			break
		}
		acc := []*Term{Num(t.sort, 0)}
		for _, m := range t.mons {
			x := BigNum(t.sort, m.c)
			for _, v := range m.vs {
				x = Mul(x, rb(v))
			}
			acc = append(acc, x)
		}
		r = Add(acc...)
	case OApp:
		if len(t.args) == 0 {
			r = t
			break
		}
		as := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			as[i] = rb(a)
			if as[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = mkApp(t.sort, t.name, as)
		}
	default:
		same := true
		for _, a := range t.args {
			if rb(a) != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = rebuildOp(t, rb)
		}
	}
	memo[t] = r
	return r
}

func rebuildOp(t *Term, rb func(*Term) *Term) (r *Term) {
	switch t.op {
	case OSel:
		r = Sel(rb(t.args[0]), rb(t.args[1]))
	case OSto:
		r = Sto(rb(t.args[0]), rb(t.args[1]), rb(t.args[2]))
	case OEq:
		if len(t.args) == 1 {
			p := rb(t.args[0])
			r = Eq(p, Num(p.sort, 0))
		} else {
			r = Eq(rb(t.args[0]), rb(t.args[1]))
		}
	case OLe:
		r = Le0(rb(t.args[0]))
	case ONot:
		r = Not(rb(t.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rb(a)
		}
		if t.op == OAnd {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case OIte:
		r = Ite(rb(t.args[0]), rb(t.args[1]), rb(t.args[2]))
	case OForall, OExists:
		b := rb(t.args[0])
		r = Quant(t.op, t.bvs, b)
	case OLam:
		r = Lam(t.bvs[0], rb(t.args[0]))
	}
	return r
}

// mkApp rebuilds an application through its smart constructor.
func mkApp(s Sort, name string, as []*Term) *Term {
	switch name {
	case "inv":
		return Inv(as[0])
	case "idiv":
		return IDiv(as[0], as[1].num)
	case "toF":
		return toF(as[0])
	case "blen":
		return Blen(as[0])
	case "at":
		return At(as[0], as[1])
	case "u8":
		return U8(as[0])
	case "sub":
		return SubB(as[0], as[1], as[2])
	case "cat":
		return Cat(as...)
	case "zeros":
		return Zeros(as[0])
	}
	if f, ok := appHook[name]; ok {
		if r := f(as); r != nil {
			return r
		}
	}
	return App(s, name, as...)
}

// appHook: simplifiers for named functions; Fn applies them.
var appHook = map[string]func(as []*Term) *Term{}

func Fn(s Sort, name string, as ...*Term) *Term { return mkApp(s, name, as) }

func subst(t *Term, m map[*Term]*Term) *Term {
	return substAvoid(t, m, func(x *Term) *Term { return m[x] })
}

func walkTerms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walkTerms(a, seen, f)
	}
	for _, m := range t.mons {
		for _, v := range m.vs {
			walkTerms(v, seen, f)
		}
	}
}

func (t *Term) String() string { return tstr(t, 0) }

func tstr(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	as := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, tstr(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		if t.num != nil {
			return t.num.String()
		}
		return t.name
	case OVar:
		return t.name
	case OPoly:
		var s []string
		for _, m := range t.mons {
			var p []string
			if m.c.Cmp(big.NewInt(1)) != 0 || len(m.vs) == 0 {
				p = append(p, m.c.String())
			}
			for _, v := range m.vs {
				p = append(p, tstr(v, d+1))
			}
			s = append(s, strings.Join(p, "*"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OApp:
		if l, ok := isLit(t); ok {
			return fmt.Sprintf("%q", l)
		}
		if len(t.args) == 0 {
			return t.name
		}
		if t.name == "cat" {
			return "cat(" + as(t.args) + ")"
		}
		return t.name + "(" + as(t.args) + ")"
	case OSel:
		return tstr(t.args[0], d+1) + "[" + tstr(t.args[1], d+1) + "]"
	case OSto:
		return tstr(t.args[0], d+1) + "{" + tstr(t.args[1], d+1) + ":=" + tstr(t.args[2], d+1) + "}"
	case OEq:
		if len(t.args) == 1 {
			return tstr(t.args[0], d+1) + " = 0"
		}
		return tstr(t.args[0], d+1) + " = " + tstr(t.args[1], d+1)
	case OLe:
		return tstr(t.args[0], d+1) + " <= 0"
	case ONot:
		return "!(" + tstr(t.args[0], d+1) + ")"
	case OAnd:
		return "(" + strings.ReplaceAll(as(t.args), ", ", " && ") + ")"
	case OOr:
		return "(" + strings.ReplaceAll(as(t.args), ", ", " || ") + ")"
	case OIte:
		return "ite(" + as(t.args) + ")"
	case OLam:
		return "[" + t.bvs[0].name + " :: " + tstr(t.args[0], d+1) + "]"
	case OForall, OExists:
		q := "forall "
		if t.op == OExists {
			q = "exists "
		}
		return q + as(t.bvs) + " :: " + tstr(t.args[0], d+1)
	}
	return "?"
}
