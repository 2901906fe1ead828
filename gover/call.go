package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type closure struct {
	fn    *ssa.Function
	binds []Val
}

// fnKey names a function as package.Func or package.Type.Method.
func fnKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	o, _ := fn.Object().(*types.Func)
	if o == nil || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "from type information") {
		if fn.Parent() != nil {
			return fnKey(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
		}
		return "synthetic " + fn.String()
	}
	return objKey(o)
}

func objKey(o *types.Func) string {
	pk := "universe"
	if o.Pkg() != nil {
		pk = o.Pkg().Name()
		if pk == "rand" {
			pk = o.Pkg().Path()
		}
	}
	if r := o.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + o.Name()
		}
	}
	return pk + "." + o.Name()
}

func (x *Exec) call(fr *Frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, k Cont) {
	args := x.vals(fr, c.Args)
	var fv Val
	if c.IsInvoke() {
		fv = x.val(fr, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = x.val(fr, c.Value)
	}
	x.callWith(fr, st, ins, c, fv, args, k)
}

func (x *Exec) callWith(fr *Frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val, k Cont) {
	if c.IsInvoke() {
		x.invoke(fr, st, ins, c, fv, args, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, ins, b, c, args, k)
		return
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		x.callFn(fr, st, ins, fn, nil, args, k)
		return
	}
	x.callRef(fr, st, ins, fv[0], args, k)
}

// callRef calls a function value.
func (x *Exec) callRef(fr *Frame, st *State, ins ssa.Instruction, f *Term, args []Val, k Cont) {
	if isFunc(f) {
		if fn := x.eng.funcByName[f.name]; fn != nil {
			x.callFn(fr, st, ins, fn, nil, args, k)
			return
		}
	}
	if cl := x.eng.closures[f]; cl != nil {
		x.callFn(fr, st, ins, cl.fn, cl.binds, args, k)
		return
	}
	unsup("call of unknown function value %s", f)
}

func (x *Exec) invoke(fr *Frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val, k Cont) {
	if id, ok := st.simp(recv[0]).asInt(); ok && id > 0 {
		t := typeByID[id]
		sel := x.eng.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			unsup("no method %s on %s", c.Method.Name(), t)
		}
		if o, ok := sel.Obj().(*types.Func); ok {
			if m := x.model(objKey(o)); m != nil && len(sel.Index()) == 1 {
				m(&callSite{x: x, fr: fr, st: st, ins: ins, name: objKey(o), args: append([]Val{x.unboxIface(t, recv[1])}, args...), sig: o.Type().(*types.Signature), k: k})
				return
			}
		}
		fn := x.eng.prog.MethodValue(sel)
		if fn == nil {
			unsup("method %s of %s", c.Method.Name(), t)
		}
		x.callFn(fr, st, ins, fn, nil, append([]Val{x.unboxIface(t, recv[1])}, args...), k)
		return
	}
	x.nonNilIface(st, recv, ins)
	key := objKey(c.Method)
	if con := x.eng.contracts[key]; con != nil {
		x.applyContract(fr, st, ins, con, c.Method.Type().(*types.Signature), append([]Val{recv}, args...), k)
		return
	}
	if m := x.model(key); m != nil {
		m(&callSite{x: x, fr: fr, st: st, ins: ins, name: key, args: append([]Val{recv}, args...), sig: c.Method.Type().(*types.Signature), k: k})
		return
	}
	unsup("dynamic call of %s", key)
}

func (x *Exec) nonNilIface(st *State, v Val, ins ssa.Instruction) {
	g := Not(Eq(v[0], tZero))
	if st.simp(g) != tTrue {
		x.safety(st, "nil interface", g, ins)
	}
}

func (x *Exec) callFn(fr *Frame, st *State, ins ssa.Instruction, fn *ssa.Function, binds []Val, args []Val, k Cont) {
	key := fnKey(fn)
	if x.initRun && fn.Synthetic == "package initializer" {
		k(st, nil)
		return
	}
	if con := x.eng.contracts[key]; con != nil && con != x.eng.inlineCon {
		x.usedCon[key] = true
		x.applyContract(fr, st, ins, con, fn.Signature, args, k)
		return
	}
	if m := x.model(key); m != nil {
		m(&callSite{x: x, fr: fr, st: st, ins: ins, name: key, args: args, sig: fn.Signature, k: k})
		return
	}
	if len(fn.Blocks) == 0 || !x.eng.inlinable(fn) {
		unsup("call of %s, which has no contract", fn)
	}
	if fr != nil && fr.depth > 12 {
		unsup("inlining too deep at %s", fn)
	}
	for _, g := range x.stack {
		if g == fn {
			unsup("recursive call of %s", fn)
		}
	}
	if fn.Synthetic == "" {
		x.inlined[key] = true
	}
	d := 0
	if fr != nil {
		d = fr.depth + 1
	}
	x.runFn(fn, st, binds, args, d, fr, k)
}

func (x *Exec) runFn(fn *ssa.Function, st *State, binds, args []Val, depth int, parent *Frame, k Cont) {
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, depth: depth, names: map[string]ssa.Value{}, parent: parent}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
		nf.names[p.Name()] = p
	}
	for i, p := range fn.FreeVars {
		nf.env[p] = binds[i]
		nf.names["&"+p.Name()] = p
	}
	x.stack = append(x.stack, fn)
	n := len(x.stack)
	x.instrs(nf, st, fn.Blocks[0], 0, func(st *State, res Val) {
		saved := append([]*ssa.Function{}, x.stack...)
		x.stack = x.stack[:n-1]
		k(st, res)
		x.stack = saved
	})
	x.stack = x.stack[:n-1]
}

// ---------- builtins ----------

func (x *Exec) builtin(fr *Frame, st *State, ins ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val, k Cont) {
	switch b.Name() {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			k(st, Val{args[0][2]})
		case *types.Basic:
			k(st, Val{Blen(args[0][0])})
		case *types.Map:
			m := args[0][0]
			n := card(x.mapDom(st, c.Args[0].Type(), m))
			if m != tNil {
				n = Ite(st.simp(Eq(m, tNil)), tZero, n)
			}
			k(st, Val{n})
		case *types.Array:
			k(st, Val{I(u.Len())})
		case *types.Pointer:
			k(st, Val{I(u.Elem().Underlying().(*types.Array).Len())})
		default:
			unsup("len of %s", c.Args[0].Type())
		}
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); !ok {
			unsup("cap")
		}
		k(st, Val{args[0][3]})
	case "append":
		x.appendSlice(st, ins, c, args, k)
	case "copy":
		x.copySlice(st, c, args, k)
	case "delete":
		t := c.Args[0].Type()
		d, _, _ := mapHeaps(t)
		m := args[0][0]
		h := st.heap(d, ArrS(SRef, domSort))
		if m != tNil {
			// deleting from a nil map is a no-op
			s := Sel(h, m)
			st.heaps[d] = Sto(h, m, Ite(st.simp(Eq(m, tNil)), s, Sto(s, args[1][0], tFalse)))
		}
		k(st, nil)
	case "close":
		ch := args[0][0]
		h := st.heap("H_chan.closed", ArrS(SRef, SBool))
		x.safety(st, "close of closed or nil channel", And(Not(Eq(ch, tNil)), Not(Sel(h, ch))), ins)
		h = st.heap("H_chan.closed", ArrS(SRef, SBool))
		st.heaps["H_chan.closed"] = Sto(h, ch, tTrue)
		k(st, nil)
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0][0], ins, "receiver")
		k(st, args[0])
	case "min", "max":
		p, q := args[0][0], args[1][0]
		if len(args) != 2 {
			unsup("min/max")
		}
		if b.Name() == "min" {
			k(st, Val{Ite(Le(p, q), p, q)})
		} else {
			k(st, Val{Ite(Le(p, q), q, p)})
		}
	case "print", "println":
		k(st, nil)
	case "clear":
		unsup("clear")
	default:
		unsup("builtin %s", b.Name())
	}
}

// branch runs f on the states where c holds and g where it does not.
func (x *Exec) branch(st *State, c *Term, f, g func(st *State)) {
	c = st.simp(c)
	if c == tTrue {
		f(st)
		return
	}
	if c == tFalse {
		g(st)
		return
	}
	st2 := st.clone()
	st.assume(c)
	f(st)
	st2.assume(Not(c))
	g(st2)
}

func (x *Exec) appendSlice(st *State, ins ssa.Instruction, c *ssa.CallCommon, args []Val, k Cont) {
	s := args[0]
	var add Val // slice value appended
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	raw := isRawByte(el)
	var xb *Term
	if len(args) == 1 {
		k(st, s)
		return
	}
	if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		xb = args[1][0]
		add = Val{nil, nil, Blen(xb)}
	} else {
		add = args[1]
		if raw {
			byteSliceFacts(st, add)
			xb = x.bytesOf(st, add)
		}
	}
	n := add[2]
	nl := Add(s[2], n)
	if raw {
		byteSliceFacts(st, s)
		x.branch(st, Le(n, tZero), func(st *State) { k(st, s) }, func(st *State) {
			x.branch(st, Le(nl, s[3]), func(st *State) {
				h := st.heap("HB", ArrS(SRef, SBytes))
				st.heaps["HB"] = Sto(h, s[0], Splice(Sel(h, s[0]), Add(s[1], s[2]), xb))
				k(st, Val{s[0], s[1], nl, s[3]})
			}, func(st *State) {
				o := x.newObj()
				pad := Fresh(SBytes, "pad")
				h := st.heap("HB", ArrS(SRef, SBytes))
				st.heaps["HB"] = Sto(h, o, Cat(x.bytesOf(st, s), xb, pad))
				k(st, Val{o, tZero, nl, Add(nl, Blen(pad))})
			})
		})
		return
	}
	// number of appended elements must be known
	cnt, ok := n.asInt()
	if !ok {
		x.appendMany(st, el, s, add, k)
		return
	}
	if cnt == 0 {
		k(st, s)
		return
	}
	var vals []Val
	for j := int64(0); j < cnt; j++ {
		vals = append(vals, x.load(st, Elt(add[0], AddI(add[1], j)), el))
	}
	x.branch(st, Le(nl, s[3]), func(st *State) {
		for j := range vals {
			x.store(st, Elt(s[0], AddI(Add(s[1], s[2]), int64(j))), el, vals[j])
		}
		k(st, Val{s[0], s[1], nl, s[3]})
	}, func(st *State) {
		o := x.newObj()
		x.snapObj(st, o, s)
		for j := range vals {
			x.store(st, Elt(o, AddI(s[2], int64(j))), el, vals[j])
		}
		cp := Fresh(SInt, "cap")
		setRange(cp, tZero.num, nil)
		st.assume(Le(nl, cp))
		k(st, Val{o, tZero, nl, cp})
	})
}

// snapObj makes the new object o start as a copy of the elements of s.
func (x *Exec) snapObj(st *State, o *Term, s Val) {
	snap := map[string]*Term{}
	for k, h := range st.heaps {
		snap[k] = h
	}
	objInits[o.args[0].num.Int64()] = &objInit{snap: snap, arr: s[0], off: s[1]}
}

// appendMany appends a slice of unknown length.
func (x *Exec) appendMany(st *State, el types.Type, s, add Val, k Cont) {
	// special case: appending to an empty slice without room copies
	if s[2] == tZero && s[3] == tZero {
		x.branch(st, Le(add[2], tZero), func(st *State) { k(st, s) }, func(st *State) {
			o := x.newObj()
			x.snapObj(st, o, add)
			cp := Fresh(SInt, "cap")
			setRange(cp, tZero.num, nil)
			st.assume(Le(add[2], cp))
			k(st, Val{o, tZero, add[2], cp})
		})
		return
	}
	// general case: new array (or in place: havoc of the tail)
	nl := Add(s[2], add[2])
	x.branch(st, Le(nl, s[3]), func(st *State) {
		bv := Var(SInt, "?w")
		var facts []*Term
		for _, l := range layoutOf(el) {
			h := st.heap(l.key, ArrS(SRef, l.sort))
			nh := HavocHeap(h, l.key, []*Term{leafAddr(Elt(s[0], bv), l)}, false, x.alloc)
			j := Var(SInt, "?aj")
			idx := Sub(j, Add(s[1], s[2]))
			facts = append(facts, Quant(OForall, []*Term{j}, Eq(Sel(nh, leafAddr(Elt(s[0], j), l)),
				Ite(And(Le(tZero, idx), Lt(idx, add[2])), Sel(h, leafAddr(Elt(add[0], Add(add[1], idx)), l)), Sel(h, leafAddr(Elt(s[0], j), l))))))
			st.heaps[l.key] = nh
		}
		st.assume(facts...)
		k(st, Val{s[0], s[1], nl, s[3]})
	}, func(st *State) {
		o := x.newObj()
		for _, l := range layoutOf(el) {
			h := st.heap(l.key, ArrS(SRef, l.sort))
			j := Var(SInt, "?aj")
			st.assume(Quant(OForall, []*Term{j}, Eq(Sel(h, leafAddr(Elt(o, j), l)),
				Ite(Lt(j, s[2]), Sel(h, leafAddr(Elt(s[0], Add(s[1], j)), l)), Sel(h, leafAddr(Elt(add[0], Add(add[1], Sub(j, s[2]))), l))))))
		}
		cp := Fresh(SInt, "cap")
		setRange(cp, tZero.num, nil)
		st.assume(Le(nl, cp))
		k(st, Val{o, tZero, nl, cp})
	})
}

func (x *Exec) copySlice(st *State, c *ssa.CallCommon, args []Val, k Cont) {
	d := args[0]
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var n *Term
	var src Val
	var sb *Term
	if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		sb = args[1][0]
		n = Blen(sb)
	} else {
		src = args[1]
		n = src[2]
	}
	do := func(st *State, n *Term) {
		if isRawByte(el) {
			byteSliceFacts(st, d)
			b := sb
			if b == nil {
				byteSliceFacts(st, src)
				b = x.bytesOf(st, src)
			}
			b = SubB(b, tZero, n)
			h := st.heap("HB", ArrS(SRef, SBytes))
			if n != tZero {
				st.heaps["HB"] = Sto(h, d[0], Splice(Sel(h, d[0]), d[1], b))
			}
			k(st, Val{n})
			return
		}
		if n == tZero {
			k(st, Val{n})
			return
		}
		w := Var(SInt, "?w")
		for _, l := range layoutOf(el) {
			h := st.heap(l.key, ArrS(SRef, l.sort))
			nh := HavocHeap(h, l.key, []*Term{leafAddr(Elt(d[0], w), l)}, false, x.alloc)
			j := Var(SInt, "?aj")
			idx := Sub(j, d[1])
			st.assume(Quant(OForall, []*Term{j}, Eq(Sel(nh, leafAddr(Elt(d[0], j), l)),
				Ite(And(Le(tZero, idx), Lt(idx, n)), Sel(h, leafAddr(Elt(src[0], Add(src[1], idx)), l)), Sel(h, leafAddr(Elt(d[0], j), l))))))
			st.heaps[l.key] = nh
			// the copied elements seen from the destination
			st.assume(Quant(OForall, []*Term{j}, Implies(And(Le(tZero, j), Lt(j, n)),
				Eq(Sel(nh, leafAddr(Elt(d[0], Add(d[1], j)), l)), Sel(h, leafAddr(Elt(src[0], Add(src[1], j)), l))))))
		}
		k(st, Val{n})
	}
	x.branch(st, Le(n, d[2]), func(st *State) { do(st, n) }, func(st *State) { do(st, d[2]) })
}

// ---------- contracts at calls ----------

func (x *Exec) applyContract(fr *Frame, st *State, ins ssa.Instruction, con *Contract, sig *types.Signature, args []Val, k Cont) {
	env := x.specEnv(st, st.clone())
	env.bindParams(con, sig, args)
	where := ""
	if ins != nil {
		where = x.pos(ins.Pos())
	}
	for _, c := range con.Common {
		if c.kind == "requires" {
			g := env.boolExpr(c.expr, c.src)
			if c.assumed {
				st.assume(g)
				continue
			}
			x.oblige(st, "requires "+con.Name+": "+c.src, g, c.tags, where)
		}
	}
	run := func(st *State, cl []*Clause) {
		for i, c := range cl {
			if c.kind == "appends" {
				x.applyAppends(st, env, con, cl, i, sig, k)
				return
			}
		}
		e := *env
		e.names = map[string]SVal{}
		for n, v := range env.names {
			e.names[n] = v
		}
		e.st = st
		res := x.applyEffects(&e, con, cl, sig)
		k(st, res)
	}
	if len(con.Cases) == 0 {
		run(st, con.Common)
		return
	}
	for i, cs := range con.Cases {
		s := st
		if i < len(con.Cases)-1 {
			s = st.clone()
		}
		env.st = s
		c := s.simp(env.boolExpr(cs.cond, cs.src))
		if c == tFalse {
			continue
		}
		s.assume(c)
		run(s, append(append([]*Clause{}, con.Common...), cs.clauses...))
		if c == tTrue {
			break
		}
	}
}

// applyAppends: the callee appends bytes to a slice, in place if there is room.
func (x *Exec) applyAppends(st *State, env *SpecEnv, con *Contract, cl []*Clause, i int, sig *types.Signature, k Cont) {
	c := cl[i]
	rest := append(append([]*Clause{}, cl[:i]...), cl[i+1:]...)
	e := *env
	e.st = st
	s := e.eval(c.lhs)
	w := e.eval(c.expr).v[0]
	nl := Add(s.v[2], Blen(w))
	finish := func(st *State, r Val) {
		e2 := *env
		e2.names = map[string]SVal{}
		for n, v := range env.names {
			e2.names[n] = v
		}
		e2.st = st
		// results other than the slice follow the remaining clauses
		e2.given = map[string]Val{c.name: r}
		k(st, x.applyEffects(&e2, con, rest, sig))
	}
	byteSliceFacts(st, s.v)
	x.branch(st, Le(nl, s.v[3]), func(st *State) {
		if c.loose {
			h := st.heap("HB", ArrS(SRef, SBytes))
			j := Fresh(SBytes, "pad")
			b := Sel(h, s.v[0])
			end, cp := Add(s.v[1], s.v[2]), Add(s.v[1], s.v[3])
			st.assume(Eq(Blen(j), Sub(s.v[3], nl)))
			st.heaps["HB"] = Sto(h, s.v[0], Cat(SubB(b, tZero, end), w, j, SubB(b, cp, Sub(Blen(b), cp))))
		} else if w != tEmpty {
			h := st.heap("HB", ArrS(SRef, SBytes))
			st.heaps["HB"] = Sto(h, s.v[0], Splice(Sel(h, s.v[0]), Add(s.v[1], s.v[2]), w))
		}
		finish(st, Val{s.v[0], s.v[1], nl, s.v[3]})
	}, func(st *State) {
		o := x.newObj()
		pad := Fresh(SBytes, "pad")
		h := st.heap("HB", ArrS(SRef, SBytes))
		content := Cat(x.bytesOf(st, s.v), w, pad)
		if c.loose {
			j := Fresh(SBytes, "pad")
			b := Sel(h, s.v[0])
			end, cp := Add(s.v[1], s.v[2]), Add(s.v[1], s.v[3])
			st.assume(Eq(Blen(j), Sub(s.v[3], s.v[2])))
			h = Sto(h, s.v[0], Cat(SubB(b, tZero, end), j, SubB(b, cp, Sub(Blen(b), cp))))
		}
		st.heaps["HB"] = Sto(h, o, content)
		finish(st, Val{o, tZero, nl, Add(nl, Blen(pad))})
	})
}

type modPat struct {
	key  string
	sort Sort
	addr *Term // nil: everything
}

// applyEffects changes the state as the contract says; returns the results.
func (x *Exec) applyEffects(e *SpecEnv, con *Contract, cl []*Clause, sig *types.Signature) Val {
	st := e.st
	mark := x.alloc
	x.alloc++
	// havoc
	byKey := map[string][]modPat{}
	var keys []string
	for _, c := range cl {
		if c.kind == "modifies" {
			for _, m := range e.modifies(c.expr) {
				if m.addr == nil && m.key == "" {
					x.itSer++
					st.base = x.itSer
					for kk, h := range st.heaps {
						if _, _, ok := splitArr(h.sort); ok && !strings.HasPrefix(kk, "$") {
							byKey[kk] = append(byKey[kk], modPat{kk, h.sort, nil})
						}
					}
					continue
				}
				byKey[m.key] = append(byKey[m.key], m)
			}
		}
	}
	for kk := range byKey {
		keys = append(keys, kk)
	}
	sort.Strings(keys)
	for _, kk := range keys {
		var wild []*Term
		all := false
		var srt Sort
		for _, m := range byKey[kk] {
			srt = m.sort
			if m.addr == nil {
				all = true
			} else if m.addr.free {
				wild = append(wild, m.addr)
			}
		}
		if strings.HasPrefix(kk, "$") && (all || !strings.HasPrefix(kk, "$g_")) {
			st.heaps[kk] = Fresh(srt, kk)
			continue
		}
		h := st.heap(kk, srt)
		if all {
			st.heaps[kk] = HavocHeap(h, kk, nil, true, x.alloc)
			continue
		}
		if len(wild) > 0 {
			h = HavocHeap(h, kk, wild, false, x.alloc)
		}
		for _, m := range byKey[kk] {
			if !m.addr.free {
				x.constWrite(m.addr)
				_, vs, _ := splitArr(srt)
				f := Fresh(vs, kk+".new")
				if r, ok := heapRange[kk]; ok && vs == SInt {
					setRange(f, r[0], r[1])
				}
				if vs == SRef || strings.HasPrefix(string(vs), "(A") {
					info(f).epoch = x.alloc
				}
				if kk == "HB" {
					st.assume(Eq(Blen(f), Blen(Sel(h, m.addr))))
				}
				h = Sto(h, m.addr, f)
			}
		}
		st.heaps[kk] = h
	}
	// results
	var res Val
	given := map[string]*Clause{}
	for _, c := range cl {
		if c.kind == "returns" || c.kind == "fresh" {
			given[c.name] = c
		}
	}
	e.mark = mark
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := con.Results[i]
		var v Val
		if gv, ok := e.given[name]; ok {
			v = gv
		} else if c := given[name]; c != nil && c.kind == "returns" {
			v = e.coerce(e.resultExpr(c.expr, t), t)
		} else if c != nil {
			v = x.freshResult(st, t)
		} else {
			var fs []*Term
			v, fs = freshVal(t, name, x.alloc)
			st.assume(fs...)
		}
		e.names[name] = SVal{v: v, t: t}
		res = append(res, v...)
	}
	// assignments: right-hand sides in the old state
	for _, c := range cl {
		if c.kind == "sets" {
			loc := e.location(c.lhs)
			val := e.atOld().rhs(e, c.expr, loc.t)
			e.assign(loc, val)
		}
		if c.kind == "point" {
			loc := e.location(c.lhs)
			val := e.atOld().rhs(e, c.expr, nil)
			e.assign(loc, SVal{v: Val{Fn(SPt, "mkpt", asF(val.v[0]), Fresh(SInt, "rep"))}})
		}
	}
	for _, c := range cl {
		if c.kind == "ensures" || c.kind == "model" {
			st.assume(e.boolExpr(c.expr, c.src))
		}
	}
	return res
}

// freshResult allocates a result object.
func (x *Exec) freshResult(st *State, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return Val{x.newObj()}
	case *types.Slice:
		o := x.newObj()
		v, fs := freshVal(t, "res", x.alloc)
		v[0], v[1] = o, tZero
		st.assume(fs...)
		st.assume(Le(v[2], v[3]))
		return v
	case *types.Interface:
		v, fs := freshVal(t, "res", x.alloc)
		st.assume(fs...)
		st.assume(Not(Eq(v[0], tZero)))
		info(v[1]).minEp = x.alloc
		return v
	}
	unsup("fresh result of type %s", t)
	return nil
}

func (x *Exec) freshErr(st *State) Val {
	if x.initRun {
		return Val{func() *Term { t := Fresh(SInt, "errtag"); setRange(t, tOne.num, nil); return t }(), x.newObj()}
	}
	x.alloc++
	tag := Fresh(SInt, "errtag")
	setRange(tag, tOne.num, nil)
	dat := Fresh(SRef, "errdat")
	info(dat).epoch = x.alloc
	info(dat).minEp = x.alloc
	return Val{tag, dat}
}

var _ = fmt.Sprint

func asF(t *Term) *Term {
	if t.sort == SInt && t.isNum() {
		return BigNum(SF, t.num)
	}
	return t
}
