package main

// Obligations: hypotheses and a goal, normalised, saturated with ground facts and
// discharged by SMT solvers.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Obl struct {
	fn    string // function under verification
	name  string // stable name of the obligation
	where string // source position, informative only
	props []string
	hyps  []*Term
	goal  *Term
	lemma []*Lemma
	cover bool // reachability obligation: must NOT be provable

	status  string // proved, failed, unknown
	backend string
	secs    float64
	script  string
	small   string // an earlier query with fewer derived facts
	detail  string
	final   []*Term // the hypotheses after preparation
	depth   int     // of case splits
	prep    float64 // seconds of preparation
	stage   int
}

// ---------- recursive functions, lemmas, axioms ----------

type RecFn struct {
	name     string
	params   []*Term // ?-variables
	body     *Term
	def      bool // plain definition (expanded by mkApp)
	frame    bool // depends on its arrays below the bound only
	boundIdx int
}

var recFns = map[string]*RecFn{}

type Lemma struct {
	name     string
	params   []*Term
	trig     [][]*Term // alternative multi-patterns
	hyp      *Term
	concl    *Term
	axiom    bool
	autouse  bool
	props    []string
	induct   string
	with     []*Term
	indIdx   int
	source   string
	reqTerms []*Term
}

var lemmas = map[string]*Lemma{}
var lemmaOrder []string

// groundAxioms produces facts for one closed term.
var groundAxioms []func(t *Term) []*Term

// ---------- preparing an obligation ----------

type prep struct {
	hyps []*Term
	set  map[*Term]bool
}

func (p *prep) add(h *Term) {
	if h == tTrue || p.set[h] {
		return
	}
	h = nnf(h)
	if h == tTrue || p.set[h] {
		return
	}
	if h.op == OAnd {
		for _, a := range h.args {
			p.add(a)
		}
		return
	}
	if h.op == OExists {
		p.add(skolem(h))
		return
	}
	if h.op == ONot && h.args[0].op == OForall {
		p.add(skolemNeg(h.args[0]))
		return
	}
	if h.op == ONot && h.args[0].op == OOr {
		for _, a := range h.args[0].args {
			p.add(Not(a))
		}
		return
	}
	p.set[h] = true
	p.hyps = append(p.hyps, h)
}

var hasQMemo = map[*Term]bool{}

// hasQ: quantifiers in the boolean structure of t.
func hasQ(t *Term) bool {
	if t.sort != SBool {
		return false
	}
	switch t.op {
	case OForall, OExists:
		return true
	case OAnd, OOr, ONot, OEq, OIte:
		if r, ok := hasQMemo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if hasQ(a) {
				r = true
				break
			}
		}
		hasQMemo[t] = r
		return r
	}
	return false
}

// nnf brings quantifiers of a closed hypothesis to the surface; existentials are skolemised.
func nnf(h *Term) *Term {
	if !hasQ(h) || h.free {
		return h
	}
	switch h.op {
	case OExists:
		return nnf(skolem(h))
	case OAnd, OOr:
		as := make([]*Term, len(h.args))
		for i, a := range h.args {
			as[i] = nnf(a)
		}
		if h.op == OAnd {
			return And(as...)
		}
		return Or(as...)
	case OEq:
		a, b := h.args[0], h.args[1]
		return And(nnf(Or(Not(a), b)), nnf(Or(a, Not(b))))
	case OIte:
		return And(nnf(Or(Not(h.args[0]), h.args[1])), nnf(Or(h.args[0], h.args[2])))
	case ONot:
		a := h.args[0]
		switch a.op {
		case OExists:
			return Quant(OForall, a.bvs, Not(a.args[0]))
		case OForall:
			return nnf(skolemNeg(a))
		case OAnd, OOr:
			as := make([]*Term, len(a.args))
			for i, b := range a.args {
				as[i] = nnf(Not(b))
			}
			if a.op == OAnd {
				return Or(as...)
			}
			return And(as...)
		case OEq:
			b, c := a.args[0], a.args[1]
			return And(nnf(Or(b, c)), nnf(Or(Not(b), Not(c))))
		case OIte:
			return And(nnf(Or(Not(a.args[0]), Not(a.args[1]))), nnf(Or(a.args[0], Not(a.args[2]))))
		}
	}
	return h
}

var skCnt int

// generation of skolem constants: one more than those in the instance they come from
var skGen = map[*Term]int{}
var genMemo = map[*Term]int{}
var curGen int
var skDeep bool
var skMemo = map[*Term]*Term{}

const maxGen = 3

func genOf(t *Term) int {
	if g, ok := genMemo[t]; ok {
		return g
	}
	g := 0
	if t.op == OVar {
		g = skGen[t]
	}
	for _, a := range t.args {
		if x := genOf(a); x > g {
			g = x
		}
	}
	for _, m := range t.mons {
		for _, v := range m.vs {
			if x := genOf(v); x > g {
				g = x
			}
		}
	}
	genMemo[t] = g
	return g
}

func skConsts(q *Term) *Term {
	m := map[*Term]*Term{}
	for _, v := range q.bvs {
		skCnt++
		c := Var(v.sort, fmt.Sprintf("sk!%d", skCnt))
		info(c).epoch = 1 << 50
		if vi, ok := varTab[v.name]; ok {
			setRange(c, vi.lo, vi.hi)
		}
		skGen[c] = curGen + 1
		if curGen >= maxGen {
			skDeep = true
		}
		m[v] = c
	}
	return subst(q.args[0], m)
}

func skolem(q *Term) *Term {
	if r, ok := skMemo[q]; ok {
		return r
	}
	r := skConsts(q)
	skMemo[q] = r
	return r
}

func skolemNeg(q *Term) *Term {
	if r, ok := skMemo[q]; ok {
		return Not(r)
	}
	r := skConsts(q)
	skMemo[q] = r
	return Not(r)
}

func occurs(x, in *Term) bool {
	found := false
	walkTerms(in, map[*Term]bool{}, func(t *Term) {
		if t == x {
			found = true
		}
	})
	return found
}

func opaque(t *Term) bool {
	switch t.op {
	case OVar:
		return true
	case OSel:
		return true
	case OApp:
		switch t.name {
		case "cat", "u8", "zeros", "sub", "obj", "nil", "fld", "elt", "inv", "idiv", "toF", "constarr", "blen":
			return false
		}
		return !isGlob(t) && !isFunc(t) && !isLitT(t)
	}
	return false
}

// orient returns l, r such that the equation h is used as l := r.
func orient(h *Term) (l, r *Term) {
	if h.op == OVar && h.sort == SBool {
		return h, tTrue
	}
	if h.op == ONot && h.args[0].op == OVar {
		return h.args[0], tFalse
	}
	if h.op != OEq {
		if (h.op == OSel || h.op == OApp) && h.sort == SBool {
			return h, tTrue
		}
		if h.op == ONot && (h.args[0].op == OSel || h.args[0].op == OApp) {
			return h.args[0], tFalse
		}
		return nil, nil
	}
	if h.free {
		return nil, nil
	}
	if len(h.args) == 1 {
		p := h.args[0]
		var best *Term
		var bc *big.Int
		score := -1
		for _, m := range monsOf(p) {
			if len(m.vs) != 1 || !opaque(m.vs[0]) {
				continue
			}
			if p.sort == SInt && m.c.CmpAbs(big.NewInt(1)) != 0 {
				continue
			}
			v := m.vs[0]
			n := 0
			for _, m2 := range monsOf(p) {
				for _, v2 := range m2.vs {
					if occurs(v, v2) {
						n++
					}
				}
			}
			if n != 1 {
				continue
			}
			sc := v.size*2 + 1
			if v.op == OVar {
				sc = 1 << 20
				if strings.HasPrefix(v.name, "sk!") {
					sc = 1
				}
			}
			if sc > score {
				best, bc, score = v, m.c, sc
			}
		}
		if best == nil {
			// toF(x) := value is not oriented
			return nil, nil
		}
		rest := Sub(p, scale(best, bc))
		var r *Term
		if m := modOf(p.sort); m != nil {
			inv := new(big.Int).ModInverse(new(big.Int).Mod(bc, m), m)
			r = scale(rest, new(big.Int).Neg(inv))
		} else {
			r = scale(rest, new(big.Int).Neg(bc))
		}
		return best, r
	}
	a, b := h.args[0], h.args[1]
	ca, cb := opaque(a) && !occurs(a, b), opaque(b) && !occurs(b, a)
	rank := func(t *Term) int64 {
		if t.sort == SRef {
			e := epochOf(t)
			if e > 1<<51 {
				e = 1 << 51
			}
			if t.op == OVar {
				return e*2 + 0
			}
			return e*2 + 1
		}
		if t.op == OVar {
			return 1 << 40
		}
		return int64(t.size)
	}
	switch {
	case ca && cb:
		if rank(a) >= rank(b) {
			return a, b
		}
		return b, a
	case ca:
		return a, b
	case cb:
		return b, a
	}
	// part of a byte string that is known to be put together from others
	isSub := func(t *Term) bool { return t.op == OApp && t.name == "sub" && opaque(t.args[0]) }
	isCat := func(t *Term) bool { return t.op == OApp && t.name == "cat" }
	if isSub(a) && isCat(b) && !occurs(a, b) {
		return a, b
	}
	if isSub(b) && isCat(a) && !occurs(b, a) {
		return b, a
	}
	return nil, nil
}

// units: antisymmetry of <= and unit propagation into disjunctions.
func units(hyps []*Term) []*Term {
	for round := 0; round < 4; round++ {
		set := map[*Term]bool{}
		for _, h := range hyps {
			set[h] = true
		}
		p := &prep{set: map[*Term]bool{}}
		changed := false
		for _, h := range hyps {
			if h.op == OLe {
				if m := Le0(Neg(h.args[0])); set[m] && m != h {
					e := Eq(h.args[0], tZero)
					if e != h {
						p.add(e)
						changed = true
						continue
					}
				}
			}
			if h.op == OOr {
				var keep []*Term
				sat := false
				for _, a := range h.args {
					if set[a] {
						sat = true
						break
					}
					if set[Not(a)] || set[nnf(Not(a))] && !hasQ(a) {
						continue
					}
					keep = append(keep, a)
				}
				if sat {
					changed = true
					continue
				}
				if len(keep) < len(h.args) {
					changed = true
					p.add(Or(keep...))
					continue
				}
			}
			p.add(h)
		}
		hyps = p.hyps
		if !changed {
			break
		}
	}
	return hyps
}

// closeEqs applies equations of the hypotheses to everything.
func closeEqs(hyps []*Term) []*Term {
	for round := 0; round < 60; round++ {
		hyps = units(hyps)
		if isFalse(hyps) {
			return []*Term{tFalse}
		}
		// candidate equations, used elsewhere
		type eqn struct {
			i    int
			l, r *Term
		}
		var cands []eqn
		count := map[*Term]int{}
		for i, h := range hyps {
			if h.op == OConst || h.size > 100000 {
				continue
			}
			if l, r := orient(h); l != nil && l.size < 20000 && r.size < 20000 {
				cands = append(cands, eqn{i, l, r})
				count[l] = 0
			}
		}
		if len(cands) == 0 {
			break
		}
		for _, h := range hyps {
			walkTerms(h, map[*Term]bool{}, func(t *Term) {
				if n, ok := count[t]; ok {
					count[t] = n + 1
				}
			})
		}
		// substitute for several at once as long as they do not touch each other
		to := map[*Term]*Term{}
		gone := map[int]bool{}
		var chosen []eqn
		inside := map[*Term]bool{} // terms of the chosen equations
		for _, c := range cands {
			if count[c.l] < 2 || inside[c.l] {
				continue
			}
			ok := true
			seen := map[*Term]bool{}
			for _, t := range []*Term{c.l, c.r} {
				walkTerms(t, seen, func(t *Term) {
					if to[t] != nil {
						ok = false
					}
				})
			}
			if !ok {
				continue
			}
			for t := range seen {
				inside[t] = true
			}
			to[c.l] = c.r
			gone[c.i] = true
			chosen = append(chosen, c)
			if len(chosen) >= 24 {
				break
			}
		}
		if len(chosen) == 0 {
			break
		}
		memo := map[*Term]*Term{}
		f := func(t *Term) *Term { return to[t] }
		p := &prep{set: map[*Term]bool{}}
		for i, h := range hyps {
			if !gone[i] {
				p.add(rebuild(h, f, memo))
			}
		}
		for _, c := range chosen {
			if c.l.sort == SInt {
				lo, hi := Range(c.l)
				if lo != nil {
					p.add(Le(BigNum(SInt, lo), c.r))
				}
				if hi != nil {
					p.add(Le(c.r, BigNum(SInt, hi)))
				}
			}
		}
		hyps = p.hyps
		// keep the equations (as defining facts) at the end
		for _, c := range chosen {
			eq := hypsEqKeep(c.l, c.r)
			if eq != tTrue && !p.set[eq] {
				hyps = append(hyps, eq)
			}
		}
		for _, h := range hyps {
			if h == tFalse {
				return []*Term{tFalse}
			}
		}
	}
	return hyps
}

func hypsEqKeep(l, r *Term) *Term {
	if l.op == OVar && l.sort != SBool {
		return tTrue
	}
	return Eq(l, r)
}

// ---------- matching ----------

func matchT(p, t *Term, m map[*Term]*Term) bool {
	if !p.free {
		return p == t
	}
	if p.op == OVar {
		if p.sort != t.sort {
			return false
		}
		if o, ok := m[p]; ok {
			return o == t
		}
		m[p] = t
		return true
	}
	if p.sort != t.sort {
		return false
	}
	if isNumSort(p.sort) && p.op == OPoly {
		// linear in exactly one unbound variable with coefficient +-1
		rest := p
		var un *Term
		var uc *big.Int
		var bound = map[*Term]*Term{}
		for _, mo := range p.mons {
			for _, v := range mo.vs {
				if v.op == OVar && v.free {
					if o, ok := m[v]; ok {
						bound[v] = o
						continue
					}
					if un != nil && un != v || len(mo.vs) != 1 || mo.c.CmpAbs(big.NewInt(1)) != 0 {
						return false
					}
					un, uc = v, mo.c
				} else if v.free {
					// opaque term with bound variables inside: only if all bound
					for b := range freeBVs(v) {
						if o, ok := m[b]; ok {
							bound[b] = o
						} else {
							return false
						}
					}
				}
			}
		}
		if un == nil {
			return subst(p, bound) == t
		}
		rest = Sub(p, scale(un, uc))
		if len(bound) > 0 {
			rest = subst(rest, bound)
		}
		x := scale(Sub(t, rest), uc)
		if x.free {
			return false
		}
		m[un] = x
		return true
	}
	if p.op != t.op || p.name != t.name || len(p.args) != len(t.args) || p.op == OPoly {
		return false
	}
	if p.op == OForall || p.op == OExists {
		return false
	}
	for i := range p.args {
		if !matchT(p.args[i], t.args[i], m) {
			return false
		}
	}
	return true
}

// trigger candidates of a quantified body
func triggersOf(bvs []*Term, body *Term) []*Term {
	want := map[*Term]bool{}
	for _, v := range bvs {
		want[v] = true
	}
	var out []*Term
	seen := map[*Term]bool{}
	walkTerms(body, seen, func(t *Term) {
		if !t.free || t.op == OVar {
			return
		}
		if t.op != OSel && t.op != OApp {
			return
		}
		if t.op == OApp {
			switch t.name {
			case "idiv", "blen", "u8", "cat", "fld":
				return
			}
			// toF allowed
		}
		// bound variable directly below (through a linear polynomial)
		direct := false
		for _, a := range t.args {
			if a.op == OVar && want[a] {
				direct = true
			}
			if a.op == OPoly {
				for _, mo := range a.mons {
					for _, v := range mo.vs {
						if want[v] {
							direct = true
						}
					}
				}
			}
		}
		fv := freeBVs(t)
		for v := range fv {
			if !want[v] {
				return // bound elsewhere
			}
		}
		if direct {
			out = append(out, t)
		}
	})
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// instances of a (possibly nested positive) universal formula
type univ struct {
	ctx  *Term // whole hypothesis
	q    *Term
	pats []*Term
}

func positiveForalls(h *Term) []*Term {
	switch h.op {
	case OForall:
		return []*Term{h}
	case OAnd, OOr:
		var out []*Term
		for _, a := range h.args {
			out = append(out, positiveForalls(a)...)
		}
		return out
	}
	return nil
}

func instantiate(bvs []*Term, pats []*Term, by map[string][]*Term, limit int, emit func(map[*Term]*Term)) {
	cnt := 0
	done := map[string]bool{}
	finish := func(m map[*Term]*Term) {
		var k strings.Builder
		for _, v := range bvs {
			x, ok := m[v]
			if !ok {
				return
			}
			fmt.Fprintf(&k, "%d,", x.id)
		}
		if done[k.String()] {
			return
		}
		done[k.String()] = true
		cnt++
		if cnt > limit {
			return
		}
		emit(m)
	}
	var rec func(m map[*Term]*Term, depth int)
	rec = func(m map[*Term]*Term, depth int) {
		if cnt > limit {
			return
		}
		missing := 0
		for _, v := range bvs {
			if _, ok := m[v]; !ok {
				missing++
			}
		}
		if missing == 0 {
			finish(m)
			return
		}
		if depth > 3 {
			return
		}
		for _, p := range pats {
			adds := false
			for v := range freeBVs(p) {
				if _, ok := m[v]; !ok {
					adds = true
				}
			}
			if !adds {
				continue
			}
			for _, t := range by[headKey(p)] {
				m2 := make(map[*Term]*Term, len(m)+1)
				for k, v := range m {
					m2[k] = v
				}
				if matchT(p, t, m2) {
					rec(m2, depth+1)
				}
			}
		}
	}
	rec(map[*Term]*Term{}, 0)
}

func headKey(t *Term) string {
	return fmt.Sprintf("%d|%s|%s", t.op, t.name, t.sort)
}

func collect(hyps []*Term) (map[string][]*Term, []*Term) {
	by := map[string][]*Term{}
	var all []*Term
	seen := map[*Term]bool{}
	for _, h := range hyps {
		walkTerms(h, seen, func(t *Term) {
			if t.free || t.op == OConst {
				return
			}
			all = append(all, t)
			if t.op == OSel || t.op == OApp {
				k := headKey(t)
				by[k] = append(by[k], t)
			}
		})
	}
	// heaps behind havoc variables
	return by, all
}

// saturate adds ground facts.
func saturate(hyps []*Term, lems []*Lemma, fuel int) []*Term {
	p := &prep{set: map[*Term]bool{}}
	for _, h := range hyps {
		p.add(h)
	}
	unfolded := map[*Term]int{} // depth at which the term appeared
	factDone := map[*Term]bool{}
	prodDone := map[*Term]bool{}
	instDone := map[string]bool{}
	for round := 0; round < fuel; round++ {
		n0 := len(p.hyps)
		if n0 > 6000 {
			break
		}
		snapshot := append([]*Term{}, p.hyps...)
		by, all := collect(snapshot)
		for _, t := range all {
			if factDone[t] {
				continue
			}
			factDone[t] = true
			for _, f := range termFacts(t) {
				p.add(f)
			}
			if rf := recFns[t.name]; rf != nil && t.op == OApp && !rf.def {
				if unfolded[t] < 2 {
					m := map[*Term]*Term{}
					for i, v := range rf.params {
						m[v] = t.args[i]
					}
					body := subst(rf.body, m)
					walkTerms(body, map[*Term]bool{}, func(u *Term) {
						if u.op == OApp && recFns[u.name] != nil {
							if _, ok := unfolded[u]; !ok {
								unfolded[u] = unfolded[t] + 1
							}
						}
					})
					if body.op == OIte {
						c, a, b := body.args[0], body.args[1], body.args[2]
						switch {
						case entailsLin(p.hyps, c):
							p.add(Eq(t, a))
						case entailsLin(p.hyps, Not(c)):
							p.add(Eq(t, b))
						default:
							p.add(Implies(c, Eq(t, a)))
							p.add(Implies(Not(c), Eq(t, b)))
						}
					} else {
						p.add(Eq(t, body))
					}
				}
			}
		}
		if round == fuel-1 {
			break
		}
		// products with an unfolded function value
		for _, t := range all {
			if !isNumSort(t.sort) || t.op == OConst || prodDone[t] {
				continue
			}
			prodDone[t] = true
			for _, mo := range monsOf(t) {
				if len(mo.vs) < 2 || len(mo.vs) > 6 {
					continue
				}
				for i, v := range mo.vs {
					rf := recFns[v.name]
					if v.op != OApp || rf == nil || rf.def || rf.body.op != OIte || unfolded[v] >= 2 || !isNumSort(v.sort) {
						continue
					}
					rest := BigNum(v.sort, tOne.num)
					for j, w := range mo.vs {
						if j != i {
							rest = Mul(rest, w)
						}
					}
					m := map[*Term]*Term{}
					for k, q := range rf.params {
						m[q] = v.args[k]
					}
					c, a, b := subst(rf.body.args[0], m), subst(rf.body.args[1], m), subst(rf.body.args[2], m)
					l := Mul(rest, v)
					switch {
					case entailsLin(p.hyps, c):
						p.add(Eq(l, Mul(rest, a)))
					case entailsLin(p.hyps, Not(c)):
						p.add(Eq(l, Mul(rest, b)))
					default:
						p.add(Implies(c, Eq(l, Mul(rest, a))))
						p.add(Implies(Not(c), Eq(l, Mul(rest, b))))
					}
				}
			}
		}
		// pairs of views and sets
		for _, f := range pairFacts(all) {
			p.add(f)
		}
		for _, h := range snapshot {
			for _, q := range positiveForalls(h) {
				pats := triggersOf(q.bvs, q.args[0])
				emit := func(m map[*Term]*Term) {
					key := fmt.Sprintf("%d/%d", h.id, q.id)
					for _, v := range q.bvs {
						key += fmt.Sprintf(",%d", m[v].id)
					}
					if instDone[key] {
						return
					}
					instDone[key] = true
					inst := subst(q.args[0], m)
					if h != q {
						inst = rebuild(h, func(x *Term) *Term {
							if x == q {
								return inst
							}
							return nil
						}, map[*Term]*Term{})
					}
					g := 0
					for _, v := range q.bvs {
						if x := genOf(m[v]); x > g {
							g = x
						}
					}
					curGen, skDeep = g, false
					inst = nnf(inst)
					curGen = 0
					if !skDeep {
						p.add(inst)
					}
					skDeep = false
				}
				if len(p.hyps) > 9000 {
					break
				}
				if round < 2 && len(q.bvs) == 1 && q.bvs[0].sort == SInt {
					n := 0
					for _, t := range all {
						if t.op == OVar && t.sort == SInt && strings.HasPrefix(t.name, "sk!") && n < 6 {
							n++
							emit(map[*Term]*Term{q.bvs[0]: t})
						}
					}
				}
				instantiate(q.bvs, pats, by, 60, emit)
			}
		}
		for _, l := range lems {
			for _, tr := range l.trig {
				instantiate(l.params, tr, by, 40, func(m map[*Term]*Term) {
					key := "L" + l.name
					for _, v := range l.params {
						key += fmt.Sprintf(",%d", m[v].id)
					}
					if instDone[key] {
						return
					}
					instDone[key] = true
					p.add(subst(Implies(l.hyp, l.concl), m))
				})
			}
		}
		if len(p.hyps) == n0 {
			break
		}
	}
	return p.hyps
}

// lateFacts: facts about byte strings that only the equations revealed.
func lateFacts(hyps []*Term) []*Term {
	p := &prep{set: map[*Term]bool{}}
	for _, h := range hyps {
		p.add(h)
	}
	n0 := len(p.hyps)
	done := map[*Term]bool{}
	for r := 0; r < 3; r++ {
		_, all := collect(p.hyps)
		n := len(p.hyps)
		for _, t := range all {
			if done[t] || !t.is("sub") && !t.is("cat") {
				continue
			}
			done[t] = true
			for _, f := range termFacts(t) {
				p.add(f)
			}
		}
		if len(p.hyps) == n {
			break
		}
	}
	return p.hyps[n0:]
}

// entailsLin: the linear inequality c follows from one hypothesis (up to a constant).
func entailsLin(hyps []*Term, c *Term) bool {
	if c == tTrue {
		return true
	}
	if c.op != OLe || c.args[0].sort != SInt {
		return false
	}
	for _, h := range hyps {
		if h == c {
			return true
		}
		if h.op != OLe || h.args[0].sort != SInt {
			continue
		}
		// h: q <= 0, c: p <= 0 with p - q = k <= 0
		if k := Sub(c.args[0], h.args[0]); k.op == OConst && k.num.Sign() <= 0 {
			return true
		}
	}
	lo := Sub(tZero, c.args[0])
	if l, _ := Range(lo); l != nil && l.Sign() >= 0 {
		return true
	}
	return false
}

// termFacts: facts about one ground term that hold by the meaning of its operator.
func termFacts(t *Term) []*Term {
	var out []*Term
	if t.sort == SInt && (t.op == OVar || t.op == OSel || t.op == OApp) {
		lo, hi := Range(t)
		if lo != nil {
			out = append(out, rawLe(Sub(BigNum(SInt, lo), t)))
		}
		if hi != nil {
			out = append(out, rawLe(Sub(t, BigNum(SInt, hi))))
		}
	}
	if t.op == OSel {
		// frame of havocked memory
		h := t.args[0]
		if h.op == OVar {
			if vi := varTab[h.name]; vi != nil && vi.havoc != nil && !vi.havoc.all {
				var alts []*Term
				for _, p := range vi.havoc.pats {
					alts = append(alts, patMatches(p, t.args[1]))
				}
				alts = append(alts, Eq(t, Sel(vi.havoc.old, t.args[1])))
				out = append(out, Or(alts...))
			}
		}
		if h.op == OSto {
			for u := t; u.op == OSel && u.args[0].op == OSto; {
				h := u.args[0]
				n := Sel(h.args[0], u.args[1])
				out = append(out, Or(Not(Eq(h.args[1], u.args[1])), Eq(u, h.args[2])), Or(Eq(h.args[1], u.args[1]), Eq(u, n)))
				u = n
			}
		}
	}
	if t.is("card") && t.args[0].op == OSel {
		h := t.args[0].args[0]
		for h.op == OSto {
			h = h.args[0]
		}
		if h.op == OVar && strings.HasPrefix(h.name, "MD_") {
			out = append(out, Or(Eq(t, tZero), Not(Eq(t.args[0].args[1], tNil))))
		}
	}
	if t.op == OSel && t.sort == SBool && t.args[0].op == OSel {
		// a nil map has no entries
		h := t.args[0].args[0]
		for h.op == OSto {
			h = h.args[0]
		}
		if h.op == OVar && strings.HasPrefix(h.name, "MD_") {
			out = append(out, Or(Not(t), Not(Eq(t.args[0].args[1], tNil))))
		}
	}
	if t.is("sub") && t.args[1].op != OConst {
		b, o, k := t.args[0], t.args[1], t.args[2]
		if b.is("cat") {
			l := Blen(b.args[0])
			out = append(out, Implies(And(Le(tZero, o), Le(Add(o, k), l)), Eq(t, SubB(b.args[0], o, k))),
				Implies(Le(l, o), Eq(t, SubB(Cat(b.args[1:]...), Sub(o, l), k))))
		} else {
			out = append(out, Implies(And(Eq(o, tZero), Eq(k, Blen(b))), Eq(t, b)))
		}
	}
	if t.op == OApp && t.name == "inv" {
		out = append(out, Or(Eq(t.args[0], Num(t.sort, 0)), Eq(Mul(t.args[0], t), Num(t.sort, 1))))
		out = append(out, Or(Not(Eq(t.args[0], Num(t.sort, 0))), Eq(t, Num(t.sort, 0))))
	}
	for _, f := range groundAxioms {
		out = append(out, f(t)...)
	}
	return out
}

func rawLe(p *Term) *Term {
	if p.isNum() {
		return B(p.num.Sign() <= 0)
	}
	return intern(&Term{op: OLe, sort: SBool, args: []*Term{p}})
}

// pairFacts relates pairs of terms (extensionality of views, cardinalities).
var pairHooks []func(all []*Term) []*Term

func pairFacts(all []*Term) []*Term {
	var out []*Term
	for _, f := range pairHooks {
		out = append(out, f(all)...)
	}
	return out
}

// ---------- printing ----------

type printer struct {
	decls   bytes.Buffer
	defs    bytes.Buffer
	declSet map[string]bool
	memo    map[*Term]string
	globs   map[string]int
	n       int
	muls    map[string]bool
	objs    bool
}

func newPrinter() *printer {
	return &printer{declSet: map[string]bool{}, memo: map[*Term]string{}, globs: map[string]int{}, muls: map[string]bool{}}
}

func smtSort(s Sort) string {
	switch s {
	case SF, SK:
		return "Real"
	case SInt, SBool, SPt, SRef, SBytes:
		return string(s)
	}
	k, v, ok := splitArr(s)
	if !ok {
		return string(s)
	}
	return "(Array " + smtSort(k) + " " + smtSort(v) + ")"
}

func sym(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.$!?-", r)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < ' ' || c > '~' || c == '|' || c == '\\' || c == '%' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return "|" + b.String() + "|"
}

func (p *printer) declFun(name string, args []*Term, ret Sort) string {
	full := name
	for _, a := range args {
		full += "~" + string(a.sort)
	}
	full += "~" + string(ret)
	short := sym(name + sortTag(args, ret))
	if !p.declSet[full] {
		p.declSet[full] = true
		var as []string
		for _, a := range args {
			as = append(as, smtSort(a.sort))
		}
		fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", short, strings.Join(as, " "), smtSort(ret))
	}
	return short
}

func sortTag(args []*Term, ret Sort) string {
	s := "~"
	for _, a := range args {
		s += string(a.sort) + "_"
	}
	s += string(ret)
	return strings.NewReplacer("(", "", ")", "", " ", "").Replace(s)
}

func numStr(s Sort, n *big.Int) string {
	neg := n.Sign() < 0
	a := new(big.Int).Abs(n).String()
	if s != SInt {
		a += ".0"
	}
	if neg {
		return "(- " + a + ")"
	}
	return a
}

func (p *printer) glob(name string) string {
	k, ok := p.globs[name]
	if !ok {
		k = len(p.globs)
		p.globs[name] = k
	}
	return fmt.Sprintf("(glob %d)", k)
}

// lam declares an array defined by a lambda term.
func (p *printer) lam(t *Term) string {
	var fv []*Term
	for v := range freeBVs(t) {
		fv = append(fv, v)
	}
	sort.Slice(fv, func(i, j int) bool { return fv[i].id < fv[j].id })
	p.n++
	name := fmt.Sprintf("lam%d", p.n)
	var as, bs []string
	for _, v := range fv {
		as = append(as, smtSort(v.sort))
		bs = append(bs, fmt.Sprintf("(%s %s)", sym(v.name), smtSort(v.sort)))
	}
	me := name
	if len(fv) > 0 {
		me = "(" + name
		for _, v := range fv {
			me += " " + sym(v.name)
		}
		me += ")"
	}
	body := p.t(t.args[0])
	fmt.Fprintf(&p.defs, "(declare-fun %s (%s) %s)\n", name, strings.Join(as, " "), smtSort(t.sort))
	b := t.bvs[0]
	bs = append(bs, fmt.Sprintf("(%s %s)", sym(b.name), smtSort(b.sort)))
	fmt.Fprintf(&p.defs, "(assert (forall (%s) (! (= (select %s %s) %s) :pattern ((select %s %s)))))\n", strings.Join(bs, " "), me, sym(b.name), body, me, sym(b.name))
	return me
}

func (p *printer) t(t *Term) string {
	if s, ok := p.memo[t]; ok {
		return s
	}
	s := p.raw(t)
	if !t.free && t.op != OVar && t.op != OConst && len(s) > 40 {
		p.n++
		name := fmt.Sprintf("d%d", p.n)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", name, smtSort(t.sort), s)
		s = name
	}
	p.memo[t] = s
	return s
}

func (p *printer) ts(ts []*Term) string {
	var out []string
	for _, a := range ts {
		out = append(out, p.t(a))
	}
	return strings.Join(out, " ")
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case OConst:
		if t.num != nil {
			return numStr(t.sort, t.num)
		}
		return t.name
	case OVar:
		if t.free {
			return sym(t.name)
		}
		return p.declFun(t.name, nil, t.sort)
	case OPoly:
		var ms []string
		for _, m := range t.mons {
			ms = append(ms, p.mon(t.sort, m))
		}
		if len(ms) == 1 {
			return ms[0]
		}
		return "(+ " + strings.Join(ms, " ") + ")"
	case OApp:
		switch t.name {
		case "nil":
			return "nilref"
		case "rage":
			return "(rage " + p.t(t.args[0]) + ")"
		case "obj":
			return "(obj " + p.t(t.args[0]) + ")"
		case "fld", "elt":
			return "(" + t.name + " " + p.ts(t.args) + ")"
		case "idiv":
			return "(div " + p.ts(t.args) + ")"
		case "constarr":
			return "((as const " + smtSort(t.sort) + ") " + p.t(t.args[0]) + ")"
		case "cat":
			f := p.declFun(t.name, t.args[:2], t.sort)
			s := p.t(t.args[len(t.args)-1])
			for i := len(t.args) - 2; i >= 0; i-- {
				s = "(" + f + " " + p.t(t.args[i]) + " " + s + ")"
			}
			return s
		}
		if isGlob(t) || isFunc(t) {
			return p.glob(t.name)
		}
		if len(t.args) == 0 {
			return p.declFun(t.name, nil, t.sort)
		}
		f := p.declFun(t.name, t.args, t.sort)
		return "(" + f + " " + p.ts(t.args) + ")"
	case OSel:
		return "(select " + p.ts(t.args) + ")"
	case OSto:
		return "(store " + p.ts(t.args) + ")"
	case OEq:
		if len(t.args) == 1 {
			l, r := p.sides(t.args[0])
			return "(= " + l + " " + r + ")"
		}
		return "(= " + p.ts(t.args) + ")"
	case OLe:
		l, r := p.sides(t.args[0])
		return "(<= " + l + " " + r + ")"
	case ONot:
		return "(not " + p.t(t.args[0]) + ")"
	case OAnd:
		return "(and " + p.ts(t.args) + ")"
	case OOr:
		return "(or " + p.ts(t.args) + ")"
	case OIte:
		return "(ite " + p.ts(t.args) + ")"
	case OLam:
		return p.lam(t)
	case OForall, OExists:
		if u := shifted(t); u != t {
			if u.op != t.op {
				return p.t(u)
			}
			t = u
		}
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		var vs []string
		for _, v := range t.bvs {
			vs = append(vs, fmt.Sprintf("(%s %s)", sym(v.name), smtSort(v.sort)))
		}
		body := p.t(t.args[0])
		if pats := p.refPatterns(t); pats != "" {
			body = "(! " + body + pats + ")"
		}
		return fmt.Sprintf("(%s (%s) %s)", q, strings.Join(vs, " "), body)
	}
	panic("print")
}

// shifted replaces a bound index i that is only used as i + c in references to
// elements by j = i + c: the references then match those of other elements
// without arithmetic.
func shifted(t *Term) *Term {
	for _, v := range t.bvs {
		if v.sort != SInt {
			continue
		}
		var c *Term
		plain := false
		walkTerms(t.args[0], map[*Term]bool{}, func(x *Term) {
			if !x.is("elt") || !x.free {
				return
			}
			if x.args[1] == v {
				plain = true
			} else if x.args[1].op == OPoly {
				if d := Sub(x.args[1], v); !d.free && c == nil {
					c = d
				}
			}
		})
		if c == nil || plain {
			continue
		}
		body := substB(t.args[0], map[*Term]*Term{v: Sub(v, c)})
		t = Quant(t.op, t.bvs, body)
		if t.op != OForall && t.op != OExists {
			return t
		}
	}
	return t
}

// refPatterns triggers a quantifier over one reference by what is read there,
// never by the reference alone.
func (p *printer) refPatterns(t *Term) string {
	if t.op != OForall || len(t.bvs) != 1 || t.bvs[0].sort != SRef {
		return ""
	}
	out := ""
	seen := map[string]bool{}
	walkTerms(t.args[0], map[*Term]bool{}, func(x *Term) {
		if x.op != OSel || x.args[0].free || !x.args[1].free {
			return
		}
		if fv := freeBVs(x); len(fv) != 1 || !fv[t.bvs[0]] {
			return
		}
		if x.args[0].op != OVar {
			return
		}
		s := p.t(x)
		if !seen[s] {
			seen[s] = true
			out += " :pattern (" + s + ")"
		}
	})
	return out
}

// sides prints a term compared with 0 as two sides without negative
// coefficients, so that an equality between two terms is one for the solver's
// congruence closure too and not only for its arithmetic.
func (p *printer) sides(t *Term) (string, string) {
	zero := numStr(t.sort, new(big.Int))
	if t.op != OPoly {
		return p.t(t), zero
	}
	var l, r []string
	for _, m := range t.mons {
		if m.c.Sign() < 0 {
			r = append(r, p.mon(t.sort, Mon{c: new(big.Int).Neg(m.c), vs: m.vs}))
		} else {
			l = append(l, p.mon(t.sort, m))
		}
	}
	sum := func(x []string) string {
		switch len(x) {
		case 0:
			return zero
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return sum(l), sum(r)
}

func headOf(t *Term) string {
	switch t.op {
	case OApp:
		return "a" + t.name
	case OSel:
		for t.op == OSel || t.op == OSto {
			t = t.args[0]
		}
		return "s" + t.name
	case OVar:
		return "v"
	}
	return "x"
}

func (p *printer) mon(s Sort, m Mon) string {
	if len(m.vs) == 0 {
		return numStr(s, m.c)
	}
	// products of like factors nest alike, whatever the factors' ages
	vs := append([]*Term{}, m.vs...)
	sort.SliceStable(vs, func(i, j int) bool { return headOf(vs[i]) < headOf(vs[j]) })
	x := p.t(vs[0])
	for _, v := range vs[1:] {
		f := "fmul"
		if s == SInt {
			f = "imul"
		} else if s == SK {
			f = "kmul"
		}
		y := p.t(v)
		x = "(" + f + " " + x + " " + y + ")"
	}
	if len(m.vs) > 1 && !strings.Contains(x, "?") {
		p.muls[x] = true
	}
	if m.c.Cmp(big.NewInt(1)) == 0 {
		return x
	}
	return "(* " + numStr(s, m.c) + " " + x + ")"
}

const prelude = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.arith.solver 2)
(declare-sort Pt 0)
(declare-sort Bytes 0)
(declare-datatypes ((Ref 0)) (((nilref) (obj (oid Int)) (glob (gid Int)) (fld (fbase Ref) (ffid Int)) (elt (ebase Ref) (eidx Int)))))
(declare-fun rage (Ref) Int)
(declare-fun fmul (Real Real) Real)
(assert (forall ((a Real) (b Real)) (! (= (fmul a b) (fmul b a)) :pattern ((fmul a b)))))
(declare-fun kmul (Real Real) Real)
(declare-fun imul (Int Int) Int)
(assert (forall ((r Ref) (k Int)) (! (= (rage (fld r k)) (rage r)) :pattern ((fld r k)))))
(assert (forall ((r Ref) (k Int)) (! (= (rage (elt r k)) (rage r)) :pattern ((elt r k)))))
(assert (forall ((n Int)) (! (= (rage (obj n)) n) :pattern ((obj n)))))
(assert (forall ((n Int)) (! (= (rage (glob n)) (- 1000000000)) :pattern ((glob n)))))
(assert (= (rage nilref) (- 2000000000)))
`

// Prepare turns the obligation into an SMT script; returns "" when it is settled by normalisation.
func (o *Obl) Prepare(fuel int) {
	t0 := time.Now()
	o.stage = fuel
	defer func() { o.prep += time.Since(t0).Seconds() }()
	p := &prep{set: map[*Term]bool{}}
	for _, h := range o.hyps {
		p.add(h)
	}
	if !o.cover {
		p.add(Not(o.goal))
	}
	if d := os.Getenv("GOVER_DBG"); d != "" && strings.Contains(o.name, d) {
		fmt.Fprintln(os.Stderr, "=== ", o.name, fuel)
		for _, h := range p.hyps {
			fmt.Fprintln(os.Stderr, "   H", h)
		}
	}
	hyps := closeEqs(p.hyps)
	if isFalse(hyps) {
		o.status, o.backend = "proved", "normaliser"
		return
	}
	hyps = saturate(hyps, o.lemma, fuel)
	hyps = closeEqs(hyps)
	if !isFalse(hyps) {
		if more := lateFacts(hyps); len(more) > 0 {
			hyps = closeEqs(append(hyps, more...))
		}
	}
	if isFalse(hyps) {
		o.status, o.backend = "proved", "normaliser"
		return
	}
	// substitution normalises known ranges away: state them again
	_, final := collect(hyps)
	inHyps := map[*Term]bool{}
	for _, h := range hyps {
		inHyps[h] = true
	}
	for _, t := range final {
		if t.sort == SInt && (t.op == OVar || t.op == OSel || t.op == OApp) {
			lo, hi := Range(t)
			var fs []*Term
			if lo != nil {
				fs = append(fs, rawLe(Sub(BigNum(SInt, lo), t)))
			}
			if hi != nil {
				fs = append(fs, rawLe(Sub(t, BigNum(SInt, hi))))
			}
			for _, f := range fs {
				if f != tTrue && !inHyps[f] {
					inHyps[f] = true
					hyps = append(hyps, f)
				}
			}
		}
	}
	// parts of one byte string that are put together from smaller known parts (stated without
	// normalisation, which would merge them again)
	for _, t := range final {
		if !t.is("sub") || t.free {
			continue
		}
		for _, q := range final {
			if q == t || q.free || !q.is("sub") || q.args[0] != t.args[0] || q.args[1] != t.args[1] || !provesLe(q.args[2], t.args[2]) {
				continue
			}
			r := SubB(t.args[0], Add(t.args[1], q.args[2]), Sub(t.args[2], q.args[2]))
			c := intern(&Term{op: OApp, sort: SBytes, name: "cat", args: append([]*Term{q}, bparts(r)...)})
			if f := eqAtom(t, c); !inHyps[f] {
				inHyps[f] = true
				hyps = append(hyps, f)
			}
		}
	}
	o.final = hyps
	pr := newPrinter()
	var as bytes.Buffer
	for _, h := range hyps {
		fmt.Fprintf(&as, "(assert %s)\n", pr.t(h))
	}
	// allocation times
	_, all := collect(hyps)
	seen := map[*Term]bool{}
	for _, t := range all {
		if t.sort == SRef && !seen[t] && opaque(t) {
			seen[t] = true
			e := epochOf(t)
			if e < 1<<49 {
				fmt.Fprintf(&as, "(assert (<= (rage %s) %s))\n", pr.t(t), numStr(SInt, big.NewInt(e)))
			}
		}
	}
	var ax bytes.Buffer
	// the meaning of point values, for the solver's congruence
	for _, t := range all {
		if t.free || t.sort != SPt {
			continue
		}
		switch {
		case t.is("mkpt"):
			n, a := pr.t(t), pr.t(t.args[0])
			fmt.Fprintf(&ax, "(assert (%s %s))\n", pr.declFun("validpt", []*Term{t}, SBool), n)
			fmt.Fprintf(&ax, "(assert (= (%s %s) %s))\n", pr.declFun("dl", []*Term{t}, SF), n, a)
		case t.is("zeroPt"):
			fmt.Fprintf(&ax, "(assert (not (%s %s)))\n", pr.declFun("validpt", []*Term{t}, SBool), pr.t(t))
		}
	}
	keys := make([]string, 0, len(pr.muls))
	for k := range pr.muls {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		// (fmul a b): zero iff a factor is zero
		f, a, b := splitMul(k)
		if f == "imul" {
			fmt.Fprintf(&ax, "(assert (=> (or (= %s 0) (= %s 0)) (= %s 0)))\n", a, b, k)
			continue
		}
		fmt.Fprintf(&ax, "(assert (= (= %s 0.0) (or (= %s 0.0) (= %s 0.0))))\n", k, a, b)
	}
	o.script = prelude + pr.decls.String() + pr.defs.String() + as.String() + ax.String() + "(check-sat)\n"
}

func splitMul(s string) (f, a, b string) {
	f = s[1:5]
	s = s[6 : len(s)-1]
	depth := 0
	bar := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '|':
			bar = !bar
		case '(':
			if !bar {
				depth++
			}
		case ')':
			if !bar {
				depth--
			}
		case ' ':
			if depth == 0 && !bar {
				return f, s[:i], s[i+1:]
			}
		}
	}
	return f, s, s
}

func isFalse(hyps []*Term) bool {
	set := map[*Term]bool{}
	for _, h := range hyps {
		if h == tFalse || set[Not(h)] {
			return true
		}
		set[h] = true
	}
	return false
}

// ---------- running solvers ----------

type solverCmd struct {
	name string
	args []string
}

var solvers = []solverCmd{
	{"z3-new", []string{"-in", "-smt2"}},
	{"cvc5", []string{"--lang=smt2", "--quiet"}},
	{"z3", []string{"-in", "-smt2"}},
	{"z3-new", []string{"-in", "-smt2", "smt.case_split=3"}},
	{"z3-new", []string{"-in", "-smt2", "smt.qi.eager_threshold=5"}},
}

// race runs several solvers at once and stops them all as soon as one has found a proof.
func race(ss []solverCmd, script string, timeout time.Duration) (winner, detail string, secs float64) {
	if overtime() {
		return "", outOfTime, 0
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		i    int
		r    string
		secs float64
	}
	ch := make(chan res, len(ss))
	for i, s := range ss {
		go func() {
			r, t := runSolverCtx(ctx, s, script, timeout)
			ch <- res{i, r, t}
		}()
	}
	det := make([]string, len(ss))
	for range ss {
		r := <-ch
		secs = max(secs, r.secs)
		if r.r == "unsat" {
			return ss[r.i].name, "", r.secs
		}
		det[r.i] = ss[r.i].name + ": " + r.r
		if r.r == "sat" {
			return "", det[r.i], r.secs
		}
	}
	return "", strings.Join(det, "; "), secs
}

func runSolver(s solverCmd, script string, timeout time.Duration) (string, float64) {
	return runSolverCtx(context.Background(), s, script, timeout)
}

// solverSlots limits how many solvers run at once.
var solverSlots = make(chan bool, 12)

func runSolverCtx(ctx context.Context, s solverCmd, script string, timeout time.Duration) (string, float64) {
	select {
	case solverSlots <- true:
		defer func() { <-solverSlots }()
	case <-ctx.Done():
		return "unknown", 0
	}
	ctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	args := append([]string{}, s.args...)
	switch s.name {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
		script = strings.Replace(script, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", "(set-logic ALL)\n", 1)
	default:
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()), "-memory:2000")
	}
	cmd := exec.CommandContext(ctx, s.name, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	secs := time.Since(t0).Seconds()
	txt := out.String()
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown":
			return l, secs
		}
		if strings.HasPrefix(l, "(error") {
			return "error " + l, secs
		}
	}
	return "unknown", secs
}

var dumpDir string

func (o *Obl) Discharge(timeout time.Duration) {
	if o.status != "" {
		if o.cover {
			o.status = "failed"
			o.detail = "unreachable: the hypotheses are contradictory"
		}
		return
	}
	o.dump()
	if o.cover {
		r, secs := runSolver(solvers[0], o.script, 2*time.Second)
		o.secs = secs
		o.backend = "z3-new"
		if r == "unsat" {
			o.status = "failed"
			o.detail = "unreachable: the hypotheses are contradictory"
		} else {
			o.status = "proved"
		}
		return
	}
	order := solvers
	if strings.HasPrefix(o.name, "inv:oldmem") && !strings.Contains(o.name, "/c:") {
		// an automatic candidate: give up early
		order = solvers[:1]
		if timeout > 2*time.Second {
			timeout = 2 * time.Second
		}
	}
	if o.small != "" && len(order) > 1 {
		w, _, secs := race([]solverCmd{solvers[1], solvers[4]}, o.small, min(timeout, 5*time.Second))
		o.secs += secs
		if w != "" {
			o.status, o.backend = "proved", w
			return
		}
	}
	w, det, secs := race(order, o.script, timeout)
	o.secs += secs
	if w != "" {
		o.status, o.backend = "proved", w
		return
	}
	o.status = "failed"
	o.detail = det
}

const fullFuel = 5

const outOfTime = "not decided within the time budget"

// deadline is when a check stops asking the solvers (unix nanoseconds, 0 for never).
var deadline atomic.Int64

func overtime() bool {
	d := deadline.Load()
	return d != 0 && time.Now().UnixNano() > d
}

// dischargeAll decides obligations in two stages: with few derived facts and a short time limit
// first, then, for those left, with all derived facts, the full time limit and case distinctions.
func dischargeAll(obls []*Obl, timeout time.Duration, workers int) {
	rest := obls
	for fuel := 1; fuel <= 3; fuel++ {
		staged(rest, workers, func(o *Obl) bool {
			f := fuel
			if o.cover {
				f = fullFuel
			}
			o.Prepare(f)
			return o.status == "" || o.cover
		}, func(o *Obl) {
			if o.cover {
				o.Discharge(timeout)
			} else {
				o.quick()
			}
		})
		var left []*Obl
		for _, o := range rest {
			if o.status == "" {
				left = append(left, o)
			}
		}
		rest = left
	}
	staged(rest, workers, func(o *Obl) bool {
		o.small = o.script
		o.Prepare(fullFuel)
		return o.status == ""
	}, func(o *Obl) { o.Discharge(timeout) })
	for _, o := range rest {
		if o.status == "failed" && !o.cover && o.depth < 2 && !strings.HasPrefix(o.name, "inv:oldmem") {
			o.splitCases(timeout)
		}
	}
}

// dischargeLight is dischargeAll without case distinctions and with a short time limit.
func dischargeLight(obls []*Obl, timeout time.Duration, workers int) {
	if timeout > 2*time.Second {
		timeout = 2 * time.Second
	}
	rest := obls
	for _, fuel := range []int{1, 2, 3, fullFuel} {
		staged(rest, workers, func(o *Obl) bool {
			if fuel == fullFuel {
				o.small = o.script
			}
			o.Prepare(fuel)
			return o.status == ""
		}, func(o *Obl) {
			if fuel < fullFuel {
				o.quick()
				return
			}
			if !strings.HasPrefix(o.name, "inv:oldmem") {
				timeout := 5 * time.Second
				w, _, secs := race([]solverCmd{solvers[1], solvers[4]}, o.small, timeout)
				o.secs += secs
				if w != "" {
					o.status, o.backend = "proved", w
					return
				}
			}
			w, det, secs := race([]solverCmd{solvers[0], solvers[1], solvers[4]}, o.script, timeout)
			o.secs += secs
			if w != "" {
				o.status, o.backend = "proved", w
				return
			}
			o.status, o.detail = "failed", det
		})
		var left []*Obl
		for _, o := range rest {
			if o.status == "" {
				left = append(left, o)
			}
		}
		rest = left
	}
}

// staged prepares obligations in this goroutine (terms are not safe for concurrent use) while
// workers run the solvers.
func staged(obls []*Obl, workers int, prep func(*Obl) bool, run func(*Obl)) {
	ch := make(chan *Obl, len(obls))
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				run(o)
			}
		}()
	}
	for _, o := range obls {
		if o.status == "" && prep(o) {
			ch <- o
		}
	}
	close(ch)
	wg.Wait()
}

var dumpN int32

func (o *Obl) dump() {
	if dumpDir == "" {
		return
	}
	n := o.fn + "__" + strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(o.name)
	if len(n) > 150 {
		n = n[:150]
	}
	_ = os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%s__%d.smt2", n, atomic.AddInt32(&dumpN, 1))), []byte(o.script), 0o644)
}

// quick is one short attempt.
func (o *Obl) quick() {
	if overtime() {
		return
	}
	o.dump()
	r, secs := runSolver(solvers[0], o.script, time.Second)
	o.secs += secs
	if r == "unsat" {
		o.status, o.backend = "proved", solvers[0].name
		return
	}
	if strings.HasPrefix(o.name, "inv:oldmem") || secs < 0.5 {
		return
	}
	w, _, secs := race([]solverCmd{solvers[1], solvers[3], solvers[4]}, o.script, time.Second)
	o.secs += secs
	if w != "" {
		o.status, o.backend = "proved", w
	}
}

// splitCases tries to prove a failed obligation by case distinction on equations between
// references or byte strings that occur in disjunctive hypotheses.
func (o *Obl) splitCases(timeout time.Duration) {
	if overtime() {
		return
	}
	var cands []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.op == OAnd {
			for _, a := range t.args {
				if a.op == OEq && len(a.args) == 2 && !a.free && a.args[0].sort == SRef {
					t = a
					break
				}
			}
		}
		if t.op == ONot {
			t = t.args[0]
		}
		if t.op != OEq || len(t.args) != 2 || t.free || seen[t] {
			return
		}
		if s := t.args[0].sort; s != SRef && s != SBytes {
			return
		}
		if l, _ := orient(t); l == nil {
			return
		}
		seen[t] = true
		cands = append(cands, t)
	}
	for _, h := range o.final {
		if h.op == OOr {
			for _, a := range h.args {
				add(a)
			}
		}
	}
	sort.SliceStable(cands, func(i, j int) bool {
		bi, bj := cands[i].args[0].sort == SBytes, cands[j].args[0].sort == SBytes
		if bi != bj {
			return bi
		}
		return cands[i].size < cands[j].size
	})
	max := 5
	if o.depth > 0 {
		max = 3
	}
	if len(cands) > max {
		cands = cands[:max]
	}
	if timeout > 3*time.Second {
		timeout = 3 * time.Second
	}
	t0 := time.Now()
	for _, c := range cands {
		if time.Since(t0) > 4*time.Second {
			break
		}
		ok := true
		for _, g := range []*Term{Not(c), c} {
			s := &Obl{fn: o.fn, name: o.name, hyps: append(append([]*Term{}, o.final...), g), goal: tFalse, lemma: o.lemma, depth: o.depth + 1}
			s.Prepare(fullFuel)
			if s.status == "" {
				s.Discharge(timeout)
				if s.status == "failed" && s.depth < 2 {
					s.splitCases(timeout)
				}
			}
			o.secs += s.secs
			if s.status != "proved" {
				ok = false
				break
			}
			o.backend = s.backend
		}
		if ok {
			o.status, o.detail = "proved", ""
			o.backend += " (cases)"
			return
		}
	}
}
