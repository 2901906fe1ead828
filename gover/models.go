package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type callSite struct {
	x    *Exec
	fr   *Frame
	st   *State
	ins  ssa.Instruction
	name string
	args []Val
	sig  *types.Signature
	k    Cont
}

func (x *Exec) model(key string) func(*callSite) { return models[key] }

// freshResults returns unconstrained results.
func (c *callSite) freshResults() Val {
	var out Val
	for i := 0; i < c.sig.Results().Len(); i++ {
		v, fs := freshVal(c.sig.Results().At(i).Type(), "res", c.x.alloc)
		c.st.assume(fs...)
		out = append(out, v...)
	}
	return out
}

var models map[string]func(*callSite)

func init() {
	newErr := func(c *callSite) { c.k(c.st, c.x.freshErr(c.st)) }
	nop := func(c *callSite) { c.k(c.st, c.freshResults()) }
	models = map[string]func(*callSite){
		"errors.New":           newErr,
		"fmt.Errorf":           newErr,
		"fmt.Sprintf":          nop,
		"fmt.Sprint":           nop,
		"universe.error.Error": nop,
		"time.AfterFunc": func(c *callSite) {
			c.x.needContract(c.args[1][0])
			c.x.escape(c.st, c.args[1][0]) // the function may run at any time from here on
			o := c.x.newObj()
			for k, v := range map[string]*Term{"$g_runs": tOne, "$g_tdur": c.args[0][0], "$g_nstart": tOne} {
				c.st.heaps[k] = Sto(c.st.heap(k, ArrS(SRef, SInt)), o, v)
			}
			c.k(c.st, Val{o})
		},
		"sort.Slice":  sortSlice,
		"sort.Search": sortSearch,
	}
}

// pure runs a function value on arguments, expecting a single result term on one path.
func (x *Exec) pure(fr *Frame, st *State, ins ssa.Instruction, f *Term, args []Val) *Term {
	var out []*Term
	var conds [][]*Term
	n0 := len(st.pc)
	st0 := st.clone()
	for k, h := range st.heaps {
		_ = k
		_ = h
	}
	x.callRef(fr, st0, ins, f, args, func(s *State, r Val) {
		out = append(out, r[0])
		conds = append(conds, append([]*Term{}, s.pc[n0:]...))
	})
	if len(out) == 0 {
		unsup("comparison function has no result")
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = Ite(And(conds[i]...), out[i], r)
	}
	if r.sort != SBool {
		unsup("comparison function is not boolean")
	}
	return r
}

func sortSlice(c *callSite) {
	x, st := c.x, c.st
	iface, less := c.args[0], c.args[1][0]
	id, ok := iface[0].asInt()
	if !ok {
		unsup("sort.Slice of unknown type")
	}
	t := typeByID[id]
	s := x.unboxIface(t, iface[1])
	el := t.Underlying().(*types.Slice).Elem()
	ls := layoutOf(el)
	if len(ls) != 1 || isRawByte(el) {
		unsup("sort.Slice of %s", t)
	}
	l := ls[0]
	h := st.heap(l.key, ArrS(SRef, l.sort))
	w := Var(SInt, "?w")
	v := Var(SInt, "?sv")
	viewOf := func(h *Term) *Term {
		return Lam(v, Sel(h, leafAddr(Elt(s[0], Add(s[1], v)), l)))
	}
	nh := HavocHeap(h, l.key, []*Term{leafAddr(Elt(s[0], w), l)}, false, x.alloc)
	// elements outside the sorted range stay
	j := Var(SInt, "?aj")
	st.assume(Quant(OForall, []*Term{j}, Or(And(Le(s[1], j), Lt(j, Add(s[1], s[2]))),
		Eq(Sel(nh, leafAddr(Elt(s[0], j), l)), Sel(h, leafAddr(Elt(s[0], j), l))))))
	st.heaps[l.key] = nh
	// a permutation: same elements, each as often as before
	bi, bj := Var(SInt, "?pi"), Var(SInt, "?pj")
	at := func(h, i *Term) *Term { return Sel(h, leafAddr(Elt(s[0], Add(s[1], i)), l)) }
	in := func(i *Term) *Term { return And(Le(tZero, i), Lt(i, s[2])) }
	st.assume(Quant(OForall, []*Term{bi}, Implies(in(bi), Quant(OExists, []*Term{bj}, And(in(bj), Eq(at(nh, bi), at(h, bj)))))))
	st.assume(Quant(OForall, []*Term{bi}, Implies(in(bi), Quant(OExists, []*Term{bj}, And(in(bj), Eq(at(h, bi), at(nh, bj)))))))
	if recFns["cnt"] != nil && l.sort == SInt {
		st.assume(Quant(OForall, []*Term{bi}, Eq(Fn(SInt, "cnt", viewOf(nh), s[2], bi), Fn(SInt, "cnt", viewOf(h), s[2], bi))))
	}
	r := x.lessTerm(c, st, less, s[2])
	ba, bb := Var(SInt, "?sa"), Var(SInt, "?sb")
	body := Implies(And(Le(tZero, ba), Lt(ba, bb), Lt(bb, s[2])), Not(r(bb, ba)))
	// the comparison must be a strict weak order
	q1, q2, q3 := Fresh(SInt, "qa"), Fresh(SInt, "qb"), Fresh(SInt, "qc")
	s3 := st.clone()
	s3.assume(in(q1), in(q2), in(q3))
	x.oblige(s3.clone(), "sort: less is irreflexive", Not(r(q1, q1)), x.con.Props, x.pos(c.ins.Pos()))
	x.oblige(s3.clone(), "sort: incomparability is transitive", Or(r(q2, q1), r(q3, q2), Not(r(q3, q1))), x.con.Props, x.pos(c.ins.Pos()))
	st.assume(Quant(OForall, []*Term{ba, bb}, body))
	c.k(st, nil)
}

// lessTerm evaluates a comparison function symbolically.
func (x *Exec) lessTerm(c *callSite, st *State, less, n *Term) func(i, j *Term) *Term {
	a, b := Fresh(SInt, "si"), Fresh(SInt, "sj")
	s2 := st.clone()
	s2.assume(Le(tZero, a), Lt(a, n), Le(tZero, b), Lt(b, n))
	r := x.pure(c.fr, s2, c.ins, less, []Val{{a}, {b}})
	return func(i, j *Term) *Term { return subst(r, map[*Term]*Term{a: i, b: j}) }
}

func sortSearch(c *callSite) {
	x, st := c.x, c.st
	n, f := c.args[0][0], c.args[1][0]
	i := Fresh(SInt, "found")
	setRange(i, tZero.num, nil)
	st.assume(Or(Le(i, n), Eq(i, tZero)))
	// the predicate is called on indices in range only
	p := Fresh(SInt, "probe")
	s2 := st.clone()
	s2.assume(Le(tZero, p), Lt(p, n))
	r := x.pure(c.fr, s2, c.ins, f, []Val{{p}})
	at := func(t *Term) *Term { return subst(r, map[*Term]*Term{p: t}) }
	st.assume(Or(Le(n, i), at(i)), Or(Eq(i, tZero), Not(at(AddI(i, -1)))))
	c.k(st, Val{i})
}
