package main

import (
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Built-in theory of scalar and element encodings, and of package initialisers.

func init() {
	fixedLen["scbytes"] = 32
	injective["scbytes"] = true
	fixedLen["elbytes"] = 32
	injective["elbytes"] = true
	fixedLen["edbytes"] = 32
	injective["edbytes"] = true
	fixedLen["febytes"] = 32
	injective["febytes"] = true
	fixedLen["sha512"] = 64
	blenHook["rnd"] = func(b *Term) *Term { return b.args[1] }

	// decoding the encoding
	pair := func(dec, enc, canon string) {
		appHook[dec] = func(as []*Term) *Term {
			if as[0].is(enc) {
				return as[0].args[0]
			}
			return nil
		}
		appHook[canon] = func(as []*Term) *Term {
			if as[0].is(enc) {
				return tTrue
			}
			return nil
		}
	}
	pair("unsc", "scbytes", "canonF")
	pair("unel", "elbytes", "canonE")
	pair("unfe", "febytes", "canonK")
	d1, c1 := appHook["unsc"], appHook["canonF"]
	appHook["unsc"] = func(as []*Term) *Term {
		if r := d1(as); r != nil {
			return r
		}
		if v := smallLE(as[0]); v != nil {
			return toF(v)
		}
		if s, ok := isLit(as[0]); ok && len(s) == 32 && leInt([]byte(s)).Cmp(modOf(SF)) < 0 {
			return BigNum(SF, leInt([]byte(s)))
		}
		return nil
	}
	appHook["canonF"] = func(as []*Term) *Term {
		if r := c1(as); r != nil {
			return r
		}
		if smallLE(as[0]) != nil {
			return tTrue
		}
		if s, ok := isLit(as[0]); ok {
			return B(len(s) == 32 && leInt([]byte(s)).Cmp(modOf(SF)) < 0)
		}
		return nil
	}
	d2, c2 := appHook["unfe"], appHook["canonK"]
	appHook["unfe"] = func(as []*Term) *Term {
		if r := d2(as); r != nil {
			return r
		}
		if s, ok := isLit(as[0]); ok && len(s) == 32 {
			// field elements ignore the top bit
			b := []byte(s)
			b[31] &= 0x7f
			return BigNum(SK, leInt(b))
		}
		return nil
	}
	appHook["canonK"] = func(as []*Term) *Term {
		if r := c2(as); r != nil {
			return r
		}
		if s, ok := isLit(as[0]); ok && len(s) == 32 {
			return B(leInt([]byte(s)).Cmp(modOf(SK)) < 0)
		}
		return nil
	}
	appHook["dl"] = func(as []*Term) *Term {
		if as[0].is("mkpt") {
			return as[0].args[0]
		}
		if as[0].op == OIte {
			return Ite(as[0].args[0], Fn(SF, "dl", as[0].args[1]), Fn(SF, "dl", as[0].args[2]))
		}
		return nil
	}
	appHook["validpt"] = func(as []*Term) *Term {
		if as[0].is("mkpt") {
			return tTrue
		}
		if as[0].is("zeroPt") {
			return tFalse
		}
		if as[0].op == OIte {
			return Ite(as[0].args[0], Fn(SBool, "validpt", as[0].args[1]), Fn(SBool, "validpt", as[0].args[2]))
		}
		return nil
	}
	// canonical encodings are encodings
	back := func(dec, enc, canon string, s Sort) {
		groundAxioms = append(groundAxioms, func(t *Term) []*Term {
			if t.op == OApp && t.name == canon {
				return []*Term{Implies(t, Eq(Fn(SBytes, enc, Fn(s, dec, t.args[0])), t.args[0])), Implies(t, Eq(Blen(t.args[0]), I(32)))}
			}
			if t.is(enc) {
				out := []*Term{Fn(SBool, canon, t)}
				if a := t.args[0]; a.is(dec) {
					out = append(out, Implies(Eq(t, a.args[0]), Fn(SBool, canon, a.args[0])))
				}
				return out
			}
			return nil
		})
	}
	back("unsc", "scbytes", "canonF", SF)
	back("unel", "elbytes", "canonE", SF)
	back("unfe", "febytes", "canonK", SK)

	// small integers are distinct scalars
	groundAxioms = append(groundAxioms, func(t *Term) []*Term {
		if t.op != OEq || t.args[0].sort != SF {
			return nil
		}
		p := t.args[0]
		if len(t.args) > 1 {
			p = Sub(p, t.args[1])
		}
		n := fromF(p)
		if n == nil {
			return nil
		}
		lo, hi := Range(n)
		lim := new(big.Int).Lsh(big.NewInt(1), 200)
		if lo == nil || hi == nil || lo.CmpAbs(lim) > 0 || hi.CmpAbs(lim) > 0 {
			return nil
		}
		return []*Term{Eq(t, Eq(n, tZero))}
	})

	// cardinalities
	groundAxioms = append(groundAxioms, func(t *Term) []*Term {
		if !t.is("card") {
			return nil
		}
		s := t.args[0]
		out := []*Term{Le(tZero, t)}
		switch {
		case s.is("constarr") && s.args[0] == tFalse:
			out = append(out, Eq(t, tZero))
		case s.op == OSto:
			inner := card(s.args[0])
			in := Sel(s.args[0], s.args[1])
			if s.args[2] == tTrue {
				out = append(out, Implies(in, Eq(t, inner)), Implies(Not(in), Eq(t, AddI(inner, 1))))
			} else if s.args[2] == tFalse {
				out = append(out, Implies(in, Eq(t, AddI(inner, -1))), Implies(Not(in), Eq(t, inner)))
			}
		}
		return out
	})
	// card of an empty set; a set with a member is not empty
	groundAxioms = append(groundAxioms, func(t *Term) []*Term {
		if t.op != OSel || t.args[0].sort != domSort {
			return nil
		}
		return []*Term{Implies(t, Le(tOne, card(t.args[0])))}
	})
	// subsets: smaller or equal
	pairHooks = append(pairHooks, cardPairs)
	pairHooks = append(pairHooks, recFrames)
}

// smallLE: the value of 32 little-endian bytes of which only the first 31 can be non-zero.
func smallLE(b *Term) *Term {
	if n, ok := Blen(b).asInt(); !ok || n != 32 {
		return nil
	}
	v := tZero
	pos := int64(0)
	for _, p := range bparts(b) {
		w := new(big.Int).Lsh(big.NewInt(1), uint(8*pos))
		switch {
		case p.is("u8"):
			if pos >= 31 {
				return nil
			}
			v = Add(v, scale(p.args[0], w))
			pos++
		case p.is("zeros"):
			n, ok := p.args[0].asInt()
			if !ok {
				return nil
			}
			pos += n
		case isLitT(p):
			s, _ := isLit(p)
			for i := 0; i < len(s); i++ {
				if pos >= 31 && s[i] != 0 {
					return nil
				}
				v = Add(v, BigNum(SInt, new(big.Int).Lsh(big.NewInt(int64(s[i])), uint(8*pos))))
				pos++
			}
		default:
			return nil
		}
	}
	return v
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// cardPairs: cardinalities of related sets. For sets a, b mentioned in card terms:
// a subset b ==> card a <= card b, and card a >= card b too only if equal.
func cardPairs(all []*Term) []*Term {
	var cs []*Term
	for _, t := range all {
		if t.is("card") && t.args[0].op != OLam {
			cs = append(cs, t)
		}
	}
	if len(cs) > 8 {
		cs = cs[:8]
	}
	var out []*Term
	for i, a := range cs {
		for j, b := range cs {
			if i == j {
				continue
			}
			k := App(SInt, "subwit", a.args[0], b.args[0])
			inA, inB := Sel(a.args[0], k), Sel(b.args[0], k)
			// a not included in b, witnessed by k, or card a <= card b with equality only for equal sets
			k2 := App(SInt, "subwit", b.args[0], a.args[0])
			out = append(out, Or(And(inA, Not(inB)), And(Le(a, b), Or(Lt(a, b), Not(And(Sel(b.args[0], k2), Not(Sel(a.args[0], k2))))))))
		}
	}
	return out
}

// recFrames: a recursive function over an array and a bound depends only on the array
// below the bound: f(v, n, ..) = f(w, n, ..) unless v and w differ somewhere below n.
func recFrames(all []*Term) []*Term {
	by := map[string][]*Term{}
	for _, t := range all {
		if t.op == OApp {
			if rf := recFns[t.name]; rf != nil && rf.frame {
				by[t.name] = append(by[t.name], t)
			}
		}
	}
	var names []string
	for n := range by {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*Term
	for _, n := range names {
		ts := by[n]
		if len(ts) > 10 {
			ts = ts[:10]
		}
		rf := recFns[n]
		for i, a := range ts {
			for _, b := range ts[i+1:] {
				k := App(SInt, "recwit", a, b)
				bound := a.args[rf.boundIdx]
				alts := []*Term{Eq(a, b)}
				for j, p := range rf.params {
					if a.args[j] == b.args[j] {
						continue
					}
					if ks, _, isArr := splitArr(p.sort); isArr && ks == SInt {
						alts = append(alts, And(Le(tZero, k), Lt(k, bound), Not(Eq(Sel(a.args[j], k), Sel(b.args[j], k)))))
					} else {
						alts = append(alts, Not(Eq(a.args[j], b.args[j])))
					}
				}
				out = append(out, Or(alts...))
			}
		}
	}
	return out
}

// ---------- package initialisers ----------

var initHeaps map[string]*Term
var constGlobals = map[string]bool{}
var initMode bool

func init() {
	constMem = func(h *Term, addr *Term) *Term {
		key := heapKeyOf(h.name)
		root := refRoot(addr)
		if initMode {
			_, vs, _ := splitArr(h.sort)
			if key == "HB" {
				return nil
			}
			return zeroOfSort(vs)
		}
		if isGlob(root) && !constGlobals[root.name[len("glob:"):]] {
			return nil
		}
		h = initHeaps[key]
		if h == nil {
			return nil
		}
		initMode = true
		v := Sel(h, addr)
		initMode = false
		if v.op == OSel && v.args[0].op == OVar {
			return nil
		}
		return v
	}
}

// findConsts: package variables that are only read outside initialisers.
func (e *Engine) findConsts() {
	bad := map[string]bool{}
	all := map[string]bool{}
	name := func(g *ssa.Global) string { return g.Pkg.Pkg.Path() + "." + g.Name() }
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					bad[name(g)] = true
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Global:
				all[name(m)] = true
			case *ssa.Function:
				if m.Synthetic != "package initializer" {
					scan(m)
				}
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						if f := e.prog.FuncValue(nt.Method(i)); f != nil {
							scan(f)
						}
					}
				}
			}
		}
	}
	for n := range all {
		if !bad[n] {
			constGlobals[n] = true
		}
	}
}

// runInits executes the package initialisers symbolically.
func (e *Engine) runInits() {
	e.findConsts()
	initHeaps = map[string]*Term{}
	alloc := int64(0)
	for _, p := range e.pkgs {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		x := &Exec{eng: e, con: &Contract{Name: "init"}, top: fn, seen: map[string]int{}, muted: 1, budget: 100, usedCon: map[string]bool{}, inlined: map[string]bool{}, usedInv: map[string]bool{}, initRun: true}
		x.alloc = alloc
		st := newState()
		for k, h := range initHeaps {
			st.heaps[k] = h
		}
		g := p.Var("init$guard")
		if g != nil {
			x.store(st, Glob(g.Pkg.Pkg.Path()+"."+g.Name()), types.Typ[types.Bool], Val{tFalse})
		}
		var fin *State
		func() {
			defer func() {
				initMode = false
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						e.initNotes = append(e.initNotes, p.Pkg.Path()+": "+u.msg)
						return
					}
					if u, ok := r.(specErr); ok {
						e.initNotes = append(e.initNotes, p.Pkg.Path()+": "+u.msg)
						return
					}
					panic(r)
				}
			}()
			initMode = true
			x.entry = st.clone()
			x.runFn(fn, st, nil, nil, 0, nil, func(st *State, res Val) {
				if fin != nil {
					unsup("initialiser branches")
				}
				fin = st
			})
		}()
		if fin != nil {
			alloc = x.alloc
			for k, h := range fin.heaps {
				initHeaps[k] = h
			}
		}
	}
}
