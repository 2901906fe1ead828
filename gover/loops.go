package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

type fnLoops struct {
	byHeader map[*ssa.BasicBlock]*loopInfo
}

type loopCtx struct {
	l    *loopInfo
	dry  bool
	it   *Term // completed iterations
	back func(fr *Frame, st *State, from *ssa.BasicBlock)
	out  *loopCtx
}

func (e *Engine) loopsOf(fn *ssa.Function) *fnLoops {
	if l, ok := e.loopMemo[fn]; ok {
		return l
	}
	r := &fnLoops{byHeader: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := r.byHeader[h]
			if l == nil {
				l = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}, ord: len(r.byHeader)}
				r.byHeader[h] = l
			}
			// natural loop of back edge b -> h
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[c] {
					continue
				}
				l.body[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	e.loopMemo[fn] = r
	return r
}

// heapMod: how a heap changes in one iteration.
type heapMod struct {
	pats []*Term
	all  bool
	val  bool // not an array: just changed
	sort Sort
}

// chain lists the addresses written between heap from and its predecessor base.
func chain(h, base *Term) (pats []*Term, all bool) {
	anc := map[*Term]bool{}
	step := func(b *Term) (*Term, []*Term, bool) {
		switch {
		case b.op == OSto:
			return b.args[0], []*Term{b.args[1]}, true
		case b.op == OVar && info(b).havoc != nil && !info(b).havoc.all:
			return info(b).havoc.old, info(b).havoc.pats, true
		}
		return nil, nil, false
	}
	for b := base; b != nil; {
		anc[b] = true
		b, _, _ = step(b)
	}
	for !anc[h] {
		n, ps, ok := step(h)
		if !ok {
			return nil, true
		}
		pats = append(pats, ps...)
		h = n
	}
	// what base wrote above the common ancestor may have been overwritten
	for b := base; b != h; {
		n, ps, ok := step(b)
		if !ok {
			return nil, true
		}
		pats = append(pats, ps...)
		b = n
	}
	return pats, false
}

// generalise replaces what varies between iterations by wildcards.
func generalise(t *Term, mark int64, vary map[*Term]bool) *Term {
	cnt := 0
	memo := map[*Term]bool{}
	var varies func(t *Term) bool
	varies = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := vary[t]
		if t.op == OVar && strings.HasPrefix(t.name, "?wb") {
			vi := info(t)
			r = r || varies(vi.wlo) || varies(vi.whi)
		}
		if t.is("obj") && t.args[0].num.Int64() > mark {
			r = true
		}
		for _, a := range t.args {
			r = r || varies(a)
		}
		for _, m := range t.mons {
			for _, v := range m.vs {
				r = r || varies(v)
			}
		}
		memo[t] = r
		return r
	}
	var gen func(t *Term) *Term
	gen = func(t *Term) *Term {
		if !varies(t) {
			return t
		}
		if t.is("fld") {
			return App(SRef, "fld", gen(t.args[0]), t.args[1])
		}
		if t.is("elt") {
			return Elt(gen(t.args[0]), gen(t.args[1]))
		}
		cnt++
		w := Var(t.sort, fmt.Sprintf("?w%d_%s", cnt, t.sort))
		if t.sort == SRef {
			if minEpochOf(t) > mark {
				w = Var(SRef, fmt.Sprintf("?new%d", mark+1))
				vi := info(w)
				vi.epoch, vi.minEp = noEpoch, mark+1
			}
		}
		return w
	}
	return gen(t)
}

func (x *Exec) phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

type loopHead struct {
	st     *State
	fr     *Frame
	it     *Term
	phi    map[*ssa.Phi]Val
	varied map[*Term]bool
	epoch  int64
	mark   int64
}

// step describes an integer phi with constant increment.
type stepInfo struct {
	known bool
	bad   bool
	c     *Term
}

func (x *Exec) enterLoop(fr *Frame, st *State, l *loopInfo, from *ssa.BasicBlock, k Cont) {
	phis := x.phisOf(l.header)
	init := map[*ssa.Phi]Val{}
	pi := predIdx(l.header, from)
	for _, p := range phis {
		init[p] = x.val(fr, p.Edges[pi])
	}
	mods := map[string]*heapMod{}
	steps := map[*ssa.Phi]*stepInfo{}
	constPhi := map[*ssa.Phi]map[int]bool{} // leaf terms that never change
	for _, p := range phis {
		steps[p] = &stepInfo{}
		constPhi[p] = map[int]bool{}
		for j := range init[p] {
			constPhi[p][j] = true
		}
	}
	x.loopSer++
	mapIter := x.mapIterOf(fr, l)
	var guard func(it *Term) *Term
	head := func(final bool) *loopHead {
		h := &loopHead{phi: map[*ssa.Phi]Val{}, varied: map[*Term]bool{}}
		h.mark = x.alloc
		x.alloc++
		h.epoch = x.alloc
		h.fr = fr.clone()
		h.st = st.clone()
		h.it = Fresh(SInt, "it")
		setRange(h.it, tZero.num, nil)
		h.varied[h.it] = true
		mk := func(t *Term) *Term { h.varied[t] = true; return t }
		for _, p := range phis {
			ls := layoutOf(p.Type())
			fv, _ := freshVal(p.Type(), "phi_"+p.Comment, h.epoch)
			var v Val
			for j := range ls {
				switch {
				case constPhi[p][j]:
					v = append(v, init[p][j])
				case steps[p].known && !steps[p].bad && len(ls) == 1 && ls[0].sort == SInt:
					v = append(v, Add(init[p][j], Mul(steps[p].c, h.it)))
				default:
					v = append(v, mk(fv[j]))
				}
			}
			h.phi[p] = v
			for _, f := range wfFacts(p.Type(), v) {
				h.st.assume(f)
			}
			h.fr.env[p] = v
			if p.Comment != "" {
				h.fr.names[p.Comment] = p
			}
		}
		var ks []string
		for key := range mods {
			ks = append(ks, key)
		}
		sort.Strings(ks)
		for _, key := range ks {
			m := mods[key]
			if m.val {
				f := mk(Fresh(m.sort, key))
				if strings.HasPrefix(key, "$rnd") {
					setRange(f, tZero.num, nil)
				}
				h.st.heaps[key] = f
				continue
			}
			old := h.st.heap(key, m.sort)
			// exact addresses: store a fresh value
			var wild []*Term
			for _, p := range m.pats {
				if p.free {
					wild = append(wild, p)
				}
			}
			nh := old
			if m.all || len(wild) > 0 {
				nh = mk(HavocHeap(old, key, wild, m.all, h.epoch))
			}
			if !m.all {
				_, vs, _ := splitArr(m.sort)
				for _, p := range m.pats {
					if p.free {
						continue
					}
					f := mk(Fresh(vs, key+".l"))
					if r, ok := heapRange[key]; ok && vs == SInt {
						setRange(f, r[0], r[1])
					}
					info(f).epoch = h.epoch
					if key == "HB" {
						h.st.assume(Eq(Blen(f), Blen(Sel(old, p))))
					}
					nh = Sto(nh, p, f)
				}
			}
			h.st.heaps[key] = nh
		}
		if mapIter != nil {
			if _, ch := mods[mapIter.key]; ch {
				vis := h.st.heaps[mapIter.key]
				d, _, _ := mapHeaps(mapIter.t)
				if mods[d] == nil {
					bv := Var(SInt, "?it")
					h.st.assume(Quant(OForall, []*Term{bv}, Implies(Sel(vis, bv), Sel(x.mapDom(h.st, mapIter.t, mapIter.m), bv))))
				}
				h.st.assume(Eq(h.it, card(vis)))
			}
		}
		if final && guard != nil {
			if g := guard(Sub(h.it, tOne)); g != nil {
				if guard(Num(SInt, -1)) == tTrue {
					h.st.assume(g)
				} else {
					h.st.assume(Or(Eq(h.it, tZero), g))
				}
			}
		}
		return h
	}
	// ---- which memory changes ----
	for round := 0; ; round++ {
		if round > 8 {
			unsup("loop in %s: modified memory not found", fr.fn)
		}
		h := head(false)
		changed := false
		ctx := &loopCtx{l: l, dry: true, it: h.it}
		start := h.st.clone()
		serial0 := termCount
		ctx.back = func(f2 *Frame, s2 *State, from2 *ssa.BasicBlock) {
			bi := predIdx(l.header, from2)
			for _, p := range phis {
				nv := x.val(f2, p.Edges[bi])
				for j := range nv {
					if constPhi[p][j] && nv[j] != init[p][j] {
						constPhi[p][j] = false
						changed = true
					}
				}
				if len(nv) == 1 && nv[0].sort == SInt && !constPhi[p][0] && h.phi[p][0] != init[p][0] {
					d := Sub(nv[0], h.phi[p][0])
					si := steps[p]
					switch {
					case si.bad:
					case !d.isNum():
						si.bad = true
						changed = true
					case !si.known:
						si.known, si.c = true, d
						changed = true
					case si.c != d:
						si.bad = true
						changed = true
					}
				}
			}
			vary := h.varied
			for key, hp := range s2.heaps {
				h0 := start.heap(key, hp.sort)
				if hp == h0 {
					continue
				}
				m := mods[key]
				if m == nil {
					m = &heapMod{sort: hp.sort}
					mods[key] = m
					changed = true
				}
				if strings.HasPrefix(key, "$") {
					if !m.val {
						m.val = true
						changed = true
					}
					continue
				}
				pats, all := chain(hp, h0)
				if all {
					if !m.all {
						m.all = true
						changed = true
					}
					continue
				}
				for _, p := range pats {
					g := generaliseFrom(p, h.mark, vary, serial0)
					dup := false
					for _, o := range m.pats {
						if o == g || covers(o, g) {
							dup = true
						}
					}
					if !dup {
						m.pats = append(m.pats, g)
						changed = true
					}
				}
			}
		}
		h.fr.loops[l.header] = ctx
		x.muted++
		paths0 := x.paths
		x.runFrom(h, l, func(st *State, res Val) {})
		x.paths = paths0
		x.muted--
		if x.eng.verbose && round > 4 {
			for k, m := range mods {
				fmt.Println("loop", fr.fn, round, k, m.pats, m.all)
			}
		}
		if !changed {
			break
		}
	}
	// ---- guard of the loop ----
	if ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		inSucc := -1
		if l.body[l.header.Succs[0]] && !l.body[l.header.Succs[1]] {
			inSucc = 0
		} else if l.body[l.header.Succs[1]] && !l.body[l.header.Succs[0]] {
			inSucc = 1
		}
		if inSucc >= 0 {
			h := head(false)
			if g := x.guardTerm(h, l, ifi); g != nil {
				if inSucc == 1 {
					g = Not(g)
				}
				ok := true
				walkTerms(g, map[*Term]bool{}, func(t *Term) {
					if t != h.it && h.varied[t] {
						ok = false
					}
				})
				if ok {
					it0 := h.it
					guard = func(it *Term) *Term { return subst(g, map[*Term]*Term{it0: it}) }
				}
			}
		}
	}
	stable := false
	if mapIter != nil {
		d, _, _ := mapHeaps(mapIter.t)
		stable = mods[d] == nil
	}
	if mapIter != nil {
		x.eng.stableIter[mapIter.key] = stable
	}
	// ---- invariants ----
	h := head(true)
	cands := x.invCandidates(fr, st, h, l, init)
	var used []*invInst
	for _, c := range cands {
		if x.dropInv[c.id] {
			continue
		}
		g0, ok0 := c.eval(x, fr, st, init, tZero)
		if !ok0 {
			continue
		}
		_, ok1 := c.eval(x, h.fr, h.st, h.phi, h.it)
		if !ok1 {
			continue
		}
		used = append(used, c)
		if x.muted == 0 {
			x.usedInv[c.id] = true
		}
		s0 := st.clone()
		x.oblige(s0, "inv:"+c.id+":init", g0, nil, x.pos(l.header.Instrs[0].Pos()))
	}
	for _, c := range used {
		g, _ := c.eval(x, h.fr, h.st, h.phi, h.it)
		h.st.assume(g)
	}
	// memory that existed when the function was called and is reached by a havocked pattern
	// only is a candidate for staying as it was
	type autoFrame struct {
		id string
		at func(st *State) *Term
	}
	var autos []autoFrame
	var mkeys []string
	for key := range mods {
		mkeys = append(mkeys, key)
	}
	sort.Strings(mkeys)
	for _, key := range mkeys {
		m := mods[key]
		if m.all || m.val {
			continue
		}
		for pi, p := range m.pats {
			if !p.free {
				continue
			}
			sub := false
			for pj, q := range m.pats {
				if pj != pi && q.free && covers(q, p) && !(covers(p, q) && pj > pi) {
					sub = true
				}
			}
			if sub {
				continue
			}
			key, p, srt := key, p, m.sort
			id := fmt.Sprintf("oldmem@%s%d/%s/%d", fr.fn.Name(), l.ord, key, pi)
			var pats []*Term
			h0 := st.heap(key, srt)
			if x.dropInv[id] {
				// ... except where the contract lets the function write
				id += "/c"
				if x.dropInv[id] {
					continue
				}
				pats = x.entryMods(key)
				if len(pats) == 0 {
					continue
				}
				h0 = x.entry.clone().heap(key, srt)
			}
			at := func(s *State) *Term {
				bv, q, c := wildcards(p, "of")
				r := rageT(q)
				if !r.free {
					return nil
				}
				alts := []*Term{Not(c), Lt(tZero, r), Eq(Sel(s.heap(key, srt), q), Sel(h0, q))}
				for _, p := range pats {
					alts = append(alts, patMatches(p, q))
				}
				return Quant(OForall, bv, Or(alts...))
			}
			g := at(h.st)
			if g == nil {
				continue
			}
			if len(pats) > 0 {
				s0 := st.clone()
				x.oblige(s0, "inv:"+id+":init", at(st), nil, x.pos(l.header.Instrs[0].Pos()))
			}
			h.st.assume(g)
			autos = append(autos, autoFrame{id, at})
		}
	}
	ctx := &loopCtx{l: l, it: h.it}
	ctx.back = func(f2 *Frame, s2 *State, from2 *ssa.BasicBlock) {
		bi := predIdx(l.header, from2)
		nphi := map[*ssa.Phi]Val{}
		for _, p := range phis {
			nphi[p] = x.val(f2, p.Edges[bi])
		}
		f3 := f2.clone()
		for _, p := range phis {
			f3.env[p] = nphi[p]
			if p.Comment != "" {
				f3.names[p.Comment] = p
			}
		}
		if mapIter != nil {
			if vis := s2.heaps[mapIter.key]; vis != nil {
				s2.assume(Eq(card(vis), AddI(h.it, 1)))
			}
		}
		for _, c := range used {
			g, ok := c.eval(x, f3, s2, nphi, AddI(h.it, 1))
			if !ok {
				continue
			}
			s3 := s2.clone()
			x.oblige(s3, "inv:"+c.id+":step", g, nil, x.pos(l.header.Instrs[0].Pos()))
		}
		for _, a := range autos {
			s3 := s2.clone()
			x.oblige(s3, "inv:"+a.id+":step", a.at(s2), nil, x.pos(l.header.Instrs[0].Pos()))
		}
		x.variant(h, l, guard, s2)
		x.end()
	}
	h.fr.loops[l.header] = ctx
	for _, c := range used {
		if strings.HasPrefix(c.spec.name, "cases") {
			g, _ := c.eval(x, h.fr, h.st, h.phi, h.it)
			if g.op == OOr && len(g.args) <= 4 {
				for _, d := range g.args {
					h2 := *h
					h2.fr, h2.st = h.fr.clone(), h.st.clone()
					h2.st.assume(d)
					for _, e := range conjuncts(d) {
						if v, r := orient(e); v != nil && v.op == OVar && !v.free && v.sort != SBool {
							if r.op == OVar && !r.free && !strings.HasPrefix(v.name, "phi_") && strings.HasPrefix(r.name, "phi_") {
								v, r = r, v
							}
							substHead(&h2, v, r)
						} else if v, n := youngerThan(e); v != nil {
							r := Fresh(SRef, "new")
							*info(r) = *info(v)
							info(r).minEp = n
							substHead(&h2, v, r)
							h2.st.assume(e)
						}
					}
					for _, c2 := range used {
						if e, ok := c2.eval(x, h2.fr, h2.st, h2.phi, h2.it); ok && e.op == OEq {
							if v, r := orient(e); v != nil && v.op == OVar && !v.free && v.sort == SInt && strings.HasPrefix(v.name, "phi_") {
								substHead(&h2, v, r)
							}
						}
					}
					x.runFrom(&h2, l, k)
				}
				return
			}
		}
	}
	x.runFrom(h, l, k)
}

// youngerThan: t is n <= rage(v) for a variable v.
func youngerThan(t *Term) (*Term, int64) {
	if t.op != OLe {
		return nil, 0
	}
	n := int64(0)
	var v *Term
	for _, m := range monsOf(t.args[0]) {
		switch {
		case len(m.vs) == 0 && m.c.IsInt64():
			n = m.c.Int64()
		case len(m.vs) == 1 && m.vs[0].is("rage") && m.c.IsInt64() && m.c.Int64() == -1 && v == nil:
			v = m.vs[0].args[0]
		default:
			return nil, 0
		}
	}
	if v == nil || v.op != OVar || v.free || n <= 0 || minEpochOf(v) >= n {
		return nil, 0
	}
	return v, n
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// substHead replaces a variable of the loop head by what it is known to be.
func substHead(h *loopHead, v, r *Term) {
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t == v {
			return r
		}
		return nil
	}
	for k, val := range h.fr.env {
		n := make(Val, len(val))
		ch := false
		for i, t := range val {
			if t == nil {
				continue
			}
			n[i] = rebuild(t, f, memo)
			ch = ch || n[i] != t
		}
		if ch {
			h.fr.env[k] = n
		}
	}
	for k, t := range h.st.heaps {
		h.st.heaps[k] = rebuild(t, f, memo)
	}
	pc := h.st.pc
	h.st.pc, h.st.known = nil, map[*Term]bool{}
	for _, t := range pc {
		h.st.assume(rebuild(t, f, memo))
	}
	h.st.assume(Eq(v, r))
}

// variant: loops end. Map ranges do; a counting loop must move towards its bound.
func (x *Exec) variant(h *loopHead, l *loopInfo, guard func(*Term) *Term, st *State) {
	if x.muted > 0 {
		return
	}
	if x.mapIterOf(h.fr, l) != nil {
		return
	}
	if guard != nil {
		if g := guard(h.it); g.op == OLe {
			for _, m := range monsOf(g.args[0]) {
				if len(m.vs) == 1 && m.vs[0] == h.it && m.c.Sign() > 0 {
					return // the guard becomes false when it grows
				}
			}
		}
	}
	x.eng.noVariant[x.con.Name+" "+x.pos(l.header.Instrs[len(l.header.Instrs)-1].Pos())] = true
}

func covers(p, g *Term) bool {
	if p == g {
		return true
	}
	if p.op == OVar && strings.HasPrefix(p.name, "?w") && !strings.HasPrefix(p.name, "?wb") && p.sort == g.sort {
		return true
	}
	if p.op == OVar && strings.HasPrefix(p.name, "?new") && g.sort == SRef {
		return minEpochOf(g) >= info(p).minEp
	}
	if p.op == OApp && g.op == OApp && p.name == g.name && len(p.args) == len(g.args) && len(p.args) > 0 {
		for i := range p.args {
			if !covers(p.args[i], g.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func generaliseFrom(t *Term, mark int64, vary map[*Term]bool, serial int) *Term {
	v2 := vary
	walkTerms(t, map[*Term]bool{}, func(u *Term) {
		if u.op == OVar && !u.free && u.id > serial {
			if len(v2) == len(vary) {
				v2 = map[*Term]bool{}
				for k := range vary {
					v2[k] = true
				}
			}
			v2[u] = true
		}
	})
	return generalise(t, mark, v2)
}

// runFrom executes the loop from its header with the phis already set.
func (x *Exec) runFrom(h *loopHead, l *loopInfo, k Cont) {
	x.instrs(h.fr.clone(), h.st.clone(), l.header, numPhis(l.header), k)
}

// guardTerm evaluates the header's branch condition (nil if it cannot be done simply).
func (x *Exec) guardTerm(h *loopHead, l *loopInfo, ifi *ssa.If) (g *Term) {
	fr, st := h.fr.clone(), h.st.clone()
	x.muted++
	defer func() {
		x.muted--
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				g = nil
				return
			}
			panic(r)
		}
	}()
	for _, in := range l.header.Instrs[numPhis(l.header):] {
		switch i := in.(type) {
		case *ssa.If:
			return x.val(fr, i.Cond)[0]
		case *ssa.Call:
			b, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return nil
			}
			x.builtin(fr, st, i, b, &i.Call, x.vals(fr, i.Call.Args), func(_ *State, r Val) { fr.env[i] = r })
		case *ssa.Next, *ssa.TypeAssert:
			return nil
		default:
			x.simple(fr, st, in)
		}
	}
	return nil
}

// mapIterOf returns the map iterator advanced in the loop's header, if any.
func (x *Exec) mapIterOf(fr *Frame, l *loopInfo) *iter {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if v, ok := fr.env[n.Iter]; ok {
				return x.eng.iters[v[0]]
			}
		}
	}
	return nil
}

// ---------- invariants ----------

type InvSpec struct {
	name   string
	metas  []metaVar
	expr   string
	parsed exprNode
	forall bool
}

type metaVar struct {
	name string
	typ  string
}

type invInst struct {
	id   string
	spec *InvSpec
	bind map[string]ssa.Value // metavariable -> SSA value
	ptr  map[string]bool      // bound to an address
	l    *loopInfo
	fn   *ssa.Function
	outs []string
}

// invCandidates instantiates the invariants of the contract for this loop.
func (x *Exec) invCandidates(fr *Frame, st *State, h *loopHead, l *loopInfo, init map[*ssa.Phi]Val) []*invInst {
	var out []*invInst
	for _, sp := range x.con.Invs {
		sets := [][][]binding{make([][]binding, len(sp.metas)), make([][]binding, len(sp.metas))}
		ok := true
		for i, m := range sp.metas {
			exact, other := x.metaChoices(h.fr, l, m)
			if len(exact) == 0 && x.hasName(fr.fn, m.name) {
				ok = false // that variable is not there at this loop
				break
			}
			sets[0][i], sets[1][i] = exact, append(append([]binding{}, exact...), other...)
			if len(exact) == 0 {
				sets[0][i] = other
			}
			if len(sets[0][i]) == 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		choices := sets[0]
		n := 0
		live := 0
		var rec func(i int, bs []binding)
		rec = func(i int, bs []binding) {
			if n >= 12 {
				return
			}
			if i == len(sp.metas) {
				n++
				inst := &invInst{spec: sp, bind: map[string]ssa.Value{}, ptr: map[string]bool{}, l: l, fn: fr.fn}
				id := sp.name + "@" + fr.fn.Name() + fmt.Sprint(l.ord)
				for j, b := range bs {
					inst.bind[sp.metas[j].name] = b.v
					inst.ptr[sp.metas[j].name] = b.ptr
					id += "/" + b.v.Name()
				}
				inst.id = id
				for _, o := range out {
					if o.id == id {
						return
					}
				}
				if !x.dropInv[id] {
					live++
				}
				out = append(out, inst)
				return
			}
			for _, b := range choices[i] {
				rec(i+1, append(bs[:len(bs):len(bs)], b))
			}
		}
		rec(0, nil)
		if live == 0 && len(sp.metas) > 0 && !x.eng.light {
			// the variables of the expected names do not do: try the others of the same types
			choices = sets[1]
			rec(0, nil)
		}
	}
	return out
}

// hasName: some loop of the function has a variable of this name.
func (x *Exec) hasName(fn *ssa.Function, name string) bool {
	if m, ok := x.eng.loopNames[fn]; ok {
		return m[name]
	}
	m := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				m[v.Comment] = true
			case *ssa.Alloc:
				m[v.Comment] = true
			}
		}
	}
	if x.eng.loopNames == nil {
		x.eng.loopNames = map[*ssa.Function]map[string]bool{}
	}
	x.eng.loopNames[fn] = m
	return m[name]
}

type binding struct {
	v   ssa.Value
	ptr bool
}

func (x *Exec) metaChoices(fr *Frame, l *loopInfo, m metaVar) (exact, other []binding) {
	seen := map[ssa.Value]bool{}
	consider := func(name string, v ssa.Value) {
		if seen[v] || fr.env[v] == nil {
			return
		}
		// must be available at the loop header
		if in, ok := v.(ssa.Instruction); ok {
			b := in.Block()
			if b != l.header && l.body[b] {
				return
			}
			if b == l.header {
				if _, ok := v.(*ssa.Phi); !ok {
					return
				}
			}
		}
		ptr := false
		if !sameType(v.Type(), m.typ) {
			p, ok := v.Type().Underlying().(*types.Pointer)
			_, isAlloc := v.(*ssa.Alloc)
			_, isFree := v.(*ssa.FreeVar)
			if !ok || !(isAlloc || isFree) || !sameType(p.Elem(), m.typ) {
				return
			}
			ptr = true
		}
		seen[v] = true
		if strings.TrimPrefix(name, "&") == m.name {
			exact = append(exact, binding{v, ptr})
		} else {
			other = append(other, binding{v, ptr})
		}
	}
	var ns []string
	for n := range fr.names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		consider(n, fr.names[n])
	}
	for _, p := range x.phisOf(l.header) {
		consider(p.Comment, p)
	}
	for v := range fr.env {
		switch a := v.(type) {
		case *ssa.Alloc:
			consider("&"+a.Comment, a)
		case *ssa.MakeSlice, *ssa.MakeMap:
			consider("", v)
		}
	}
	sort.Slice(other, func(i, j int) bool { return other[i].v.Name() < other[j].v.Name() })
	if len(other) > 4 {
		other = other[:4]
	}
	return
}

// eval evaluates the invariant in a state; ok is false when it does not make sense there.
func (c *invInst) eval(x *Exec, fr *Frame, st *State, phi map[*ssa.Phi]Val, it *Term) (g *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, isSpec := r.(specErr); isSpec {
				if x.eng.verbose {
					fmt.Printf("  invariant %s: %s\n", c.id, e.msg)
				}
				g, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	env := x.specEnv(st, x.entry)
	for n, v := range x.argVals {
		env.names[n] = v
	}
	for n, v := range c.bind {
		var val Val
		if p, isPhi := v.(*ssa.Phi); isPhi && phi[p] != nil {
			val = phi[p]
		} else {
			val = fr.env[v]
		}
		if val == nil {
			return nil, false
		}
		if c.ptr[n] {
			t := v.Type().Underlying().(*types.Pointer).Elem()
			env.names[n] = SVal{v: x.load(st.clone(), val[0], t), t: t, addr: val[0]}
		} else {
			env.names[n] = SVal{v: val, t: v.Type()}
		}
	}
	env.names["it"] = SVal{v: Val{it}}
	for p := fr; p != nil; p = p.parent {
		lvl := 0
		var hs []*loopCtx
		for hb, ctx := range p.loops {
			if hb != c.l.header && ctx.l.body[c.l.header] {
				hs = append(hs, ctx)
			}
		}
		sort.Slice(hs, func(i, j int) bool { return len(hs[i].l.body) < len(hs[j].l.body) })
		for _, ctx := range hs {
			lvl++
			env.names[fmt.Sprintf("it_%d", lvl)] = SVal{v: Val{ctx.it}}
		}
		break
	}
	if mi := x.mapIterOf(fr, c.l); mi != nil {
		env.names["visited"] = SVal{v: Val{st.heaps[mi.key]}}
		env.names["ranged"] = SVal{v: Val{mi.m}, t: mi.t}
	}
	return env.boolExpr(c.spec.parsed, c.spec.expr), true
}

// sameType: the type is written like this, or is another name of the same slice type.
func sameType(t types.Type, s string) bool {
	s = canonType(s)
	if typeStr(t) == s {
		return true
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return typeStr(t.Underlying()) == s
	}
	return false
}

// canonType replaces the names of type aliases in the text of a type.
func canonType(s string) string {
	for _, a := range aliases {
		s = a.re.ReplaceAllString(s, a.to)
	}
	return s
}

type aliasName struct {
	re *regexp.Regexp
	to string
}

var aliases []aliasName

func findAliases(pkgs []*ssa.Package) {
	aliases = nil
	for _, p := range pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && tn.IsAlias() {
				aliases = append(aliases, aliasName{regexp.MustCompile(`\b` + regexp.QuoteMeta(p.Pkg.Name()+"."+n) + `\b`), typeStr(tn.Type())})
			}
		}
	}
}
