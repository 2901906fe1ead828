package main

// Symbolic execution of go/ssa functions, path by path, with contracts at calls and
// invariants at loops.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	heaps   map[string]*Term
	pc      []*Term
	known   map[*Term]bool
	ret     Val // scratch
	steps   []string
	escaped []*Term // objects made here that another goroutine may know
	base    int     // distinguishes heaps first read after everything was havocked
}

func newState() *State {
	return &State{heaps: map[string]*Term{}, known: map[*Term]bool{}}
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*Term, len(s.heaps)), pc: s.pc[:len(s.pc):len(s.pc)], known: make(map[*Term]bool, len(s.known)), steps: s.steps[:len(s.steps):len(s.steps)], base: s.base, escaped: s.escaped[:len(s.escaped):len(s.escaped)]}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k := range s.known {
		n.known[k] = true
	}
	return n
}

func (s *State) heap(key string, sort Sort) *Term {
	h, ok := s.heaps[key]
	if !ok {
		if s.base == 0 || strings.HasPrefix(key, "$") {
			h = Var(sort, key+"!0")
		} else {
			h = Var(sort, fmt.Sprintf("%s!b%d", key, s.base))
			info(h).epoch = 1 << 40
		}
		s.heaps[key] = h
	}
	return h
}

// assume adds a fact to the path condition.
func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.op == OAnd {
			s.assume(t.args...)
			continue
		}
		if t == tTrue || s.known[t] {
			continue
		}
		s.known[t] = true
		s.pc = append(s.pc, t)
	}
}

func (s *State) dead() bool {
	if s.known[tFalse] {
		return true
	}
	return false
}

// simp simplifies a condition with the literals on the path.
func (s *State) simp(c *Term) *Term {
	return rebuild(c, func(t *Term) *Term {
		if t.sort == SBool && t.op != OConst {
			if s.known[t] {
				return tTrue
			}
			if s.known[Not(t)] {
				return tFalse
			}
		}
		if t.op == OPoly || t.op == OSto || t.op == OVar || t.op == OLam || t.op == OForall || t.op == OExists {
			return t
		}
		if t.sort != SBool && t.op != OIte {
			return t
		}
		return nil
	}, map[*Term]*Term{})
}

// ---------- frames ----------

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	ins  ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	loops  map[*ssa.BasicBlock]*loopCtx
	defers []deferred
	depth  int
	names  map[string]ssa.Value // source names, by debug references seen on this path
	parent *Frame
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+4), loops: make(map[*ssa.BasicBlock]*loopCtx, len(f.loops)), defers: f.defers[:len(f.defers):len(f.defers)], depth: f.depth, names: make(map[string]ssa.Value, len(f.names)), parent: f.parent}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.loops {
		n.loops[k] = v
	}
	for k, v := range f.names {
		n.names[k] = v
	}
	return n
}

type Cont func(st *State, res Val)

// Exec verifies one function.
type Exec struct {
	returns []*Obl // one per path to a return, for the reachability check
	eng     *Engine
	con     *Contract // contract of the function under verification
	top     *ssa.Function
	obls    []*Obl
	seen    map[string]int
	alloc   int64
	muted   int
	paths   int
	budget  int
	facts   []*Term // facts valid everywhere in this function
	dropInv map[string]bool
	usedInv map[string]bool
	entry   *State
	argVals map[string]SVal
	stack   []*ssa.Function
	exits   int
	usedCon map[string]bool
	inlined map[string]bool
	itSer   int
	lemUse  []*Lemma
	cover   []*Obl
	loopSer int
	initRun bool // executing a package initialiser
}

func (x *Exec) newObj() *Term {
	x.alloc++
	if x.initRun {
		return Obj(-x.alloc)
	}
	return Obj(x.alloc)
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.eng.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/pkg/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records a proof obligation; the goal is assumed afterwards.
func (x *Exec) oblige(st *State, name string, goal *Term, props []string, where string) {
	if x.muted == 0 {
		g := st.simp(goal)
		n := x.seen[name]
		x.seen[name] = n + 1
		o := &Obl{fn: x.con.Name, name: name, where: where, props: props, goal: g}
		if g == tTrue {
			o.status, o.backend = "proved", "normaliser"
		} else {
			o.hyps = append(append([]*Term{}, x.facts...), st.pc...)
			o.lemma = x.lemUse
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

// safety records an obligation that the code does not panic here.
func (x *Exec) safety(st *State, kind string, goal *Term, ins ssa.Instruction) {
	x.oblige(st, "safety:"+kind, goal, x.con.SafetyProps(), x.pos(ins.Pos()))
}

func (x *Exec) end() {
	x.paths++
	if x.paths > x.budget {
		unsup("more than %d paths", x.budget)
	}
}

// ---------- memory ----------

func (x *Exec) load(st *State, addr *Term, t types.Type) Val {
	if addr.op == OIte {
		a := x.load(st, addr.args[1], t)
		b := x.load(st, addr.args[2], t)
		out := make(Val, len(a))
		for i := range a {
			out[i] = Ite(addr.args[0], a[i], b[i])
		}
		return out
	}
	if isRawByte(t) && addr.is("elt") {
		hb := Sel(st.heap("HB", ArrS(SRef, SBytes)), addr.args[0])
		return Val{At(hb, addr.args[1])}
	}
	var out Val
	for _, l := range layoutOf(t) {
		v := Sel(st.heap(l.key, ArrS(SRef, l.sort)), leafAddr(addr, l))
		out = append(out, v)
		if l.key == "HB" {
			n := I(l.typ.Underlying().(*types.Array).Len())
			if Blen(v) != n {
				st.assume(Eq(Blen(v), n))
			}
		}
	}
	for _, f := range wfFacts(t, out) {
		st.assume(f)
	}
	return out
}

func (x *Exec) store(st *State, addr *Term, t types.Type, v Val) {
	if isRawByte(t) && addr.is("elt") {
		h := st.heap("HB", ArrS(SRef, SBytes))
		b := Sel(h, addr.args[0])
		st.heaps["HB"] = Sto(h, addr.args[0], Splice(b, addr.args[1], U8(v[0])))
		return
	}
	if addr.op == OIte {
		unsup("store through conditional address")
	}
	x.constWrite(addr)
	ls := layoutOf(t)
	if len(ls) != len(v) {
		panic(fmt.Sprintf("store %s: %d leaves, %d terms", t, len(ls), len(v)))
	}
	for i, l := range ls {
		h := st.heap(l.key, ArrS(SRef, l.sort))
		st.heaps[l.key] = Sto(h, leafAddr(addr, l), v[i])
	}
}

// constWrite refuses writes to what package initialisers set up.
func (x *Exec) constWrite(addr *Term) {
	if x.initRun {
		return
	}
	r := refRoot(addr)
	if r.is("obj") && r.args[0].num.Sign() < 0 || isGlob(r) && constGlobals[r.name[len("glob:"):]] {
		unsup("write to a package constant %s", addr)
	}
}

func (x *Exec) allocVar(st *State, t types.Type) *Term {
	o := x.newObj()
	x.store(st, o, t, zeroVal(t))
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if pr := x.eng.protected[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; pr != nil {
			key := "$g_" + pr.ghost
			st.heaps[key] = Sto(st.heap(key, ArrS(SRef, SInt)), o, tZero) // not locked
		}
	}
	return o
}

func (x *Exec) nonNil(st *State, p *Term, ins ssa.Instruction, what string) {
	g := Not(Eq(p, tNil))
	if g != tTrue {
		x.safety(st, "nil "+what, g, ins)
	}
}

// contents of a byte slice value
func (x *Exec) bytesOf(st *State, v Val) *Term {
	return SubB(Sel(st.heap("HB", ArrS(SRef, SBytes)), v[0]), v[1], v[2])
}

// newBytes allocates a byte slice with the given content.
func (x *Exec) newBytes(st *State, b *Term) Val {
	o := x.newObj()
	h := st.heap("HB", ArrS(SRef, SBytes))
	st.heaps["HB"] = Sto(h, o, b)
	return Val{o, tZero, Blen(b), Blen(b)}
}

// sliceFacts: a byte slice lies within its array.
func byteSliceFacts(st *State, v Val) {
	hb := Sel(st.heap("HB", ArrS(SRef, SBytes)), v[0])
	st.assume(Le(Add(v[1], v[3]), Blen(hb)))
}

// ---------- values ----------

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{B(constant.BoolVal(c.Value))}
	case constant.String:
		return Val{Lit(constant.StringVal(c.Value))}
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return Val{BigNum(SInt, n)}
	}
	unsup("constant %s", c)
	return nil
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Val{Glob(c.Pkg.Pkg.Path() + "." + c.Name())}
	case *ssa.Function:
		x.eng.funcByName["func:"+c.String()] = c
		return Val{App(SRef, "func:"+c.String())}
	case *ssa.Builtin:
		return Val{App(SRef, "func:builtin."+c.Name())}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (x *Exec) vals(fr *Frame, vs []ssa.Value) []Val {
	var out []Val
	for _, v := range vs {
		out = append(out, x.val(fr, v))
	}
	return out
}

// ---------- blocks ----------

func (x *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock, k Cont) {
	for _, ctx := range fr.loops {
		if ctx.dry && ctx.l.body[from] && !ctx.l.body[to] {
			return
		}
	}
	lp := x.eng.loopsOf(fr.fn)
	if l := lp.byHeader[to]; l != nil {
		if ctx := fr.loops[to]; ctx != nil && l.body[from] {
			ctx.back(fr, st, from)
			return
		}
		x.enterLoop(fr, st, l, from, k)
		return
	}
	fr = fr.clone()
	x.phis(fr, to, from)
	x.instrs(fr, st, to, numPhis(to), k)
}

func numPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func predIdx(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("not a predecessor")
}

func (x *Exec) phis(fr *Frame, b, from *ssa.BasicBlock) {
	k := predIdx(b, from)
	var vs []Val
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(fr, p.Edges[k]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
		if p.Comment != "" {
			fr.names[p.Comment] = p
		}
	}
}

func (x *Exec) instrs(fr *Frame, st *State, b *ssa.BasicBlock, i int, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead() {
			x.end()
			return
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.Jump:
			x.jump(fr, st, b, b.Succs[0], k)
			return
		case *ssa.If:
			c := st.simp(x.val(fr, ins.Cond)[0])
			if c == tTrue {
				x.jump(fr, st, b, b.Succs[0], k)
				return
			}
			if c == tFalse {
				x.jump(fr, st, b, b.Succs[1], k)
				return
			}
			st2 := st.clone()
			st.assume(c)
			st.steps = append(st.steps, x.pos(ins.Cond.Pos())+":T")
			x.jump(fr, st, b, b.Succs[0], k)
			st2.assume(Not(c))
			st2.steps = append(st2.steps, x.pos(ins.Cond.Pos())+":F")
			x.jump(fr, st2, b, b.Succs[1], k)
			return
		case *ssa.Return:
			var res Val
			for _, r := range ins.Results {
				res = append(res, x.val(fr, r)...)
			}
			k(st, res)
			return
		case *ssa.Panic:
			g := tFalse
			for _, c := range x.con.Common {
				if c.kind == "maypanic" {
					env := x.specEnv(st, x.entry.clone())
					for n, v := range x.argVals {
						env.names[n] = v
					}
					g = Or(g, env.boolExpr(c.expr, c.src))
				}
			}
			x.safety(st, "panic", g, ins)
			x.end()
			return
		case *ssa.RunDefers:
			fr2 := fr.clone()
			ds := fr2.defers
			fr2.defers = nil
			x.runDefers(fr2, st, ds, func(st *State, _ Val) {
				x.instrs(fr2.clone(), st, b, i+1, k)
			})
			return
		case *ssa.Call:
			x.call(fr, st, ins, &ins.Call, func(st *State, res Val) {
				f2 := fr.clone()
				if n := len(layoutOf(resultType(&ins.Call))); n != len(res) {
					panic(fmt.Sprintf("call %s: %d result terms, want %d", ins, len(res), n))
				}
				f2.env[ins] = res
				x.instrs(f2, st, b, i+1, k)
			})
			return
		case *ssa.Next:
			x.next(fr, st, ins, func(st *State, res Val) {
				f2 := fr.clone()
				f2.env[ins] = res
				x.instrs(f2, st, b, i+1, k)
			})
			return
		case *ssa.TypeAssert:
			x.typeAssert(fr, st, ins, func(st *State, res Val) {
				f2 := fr.clone()
				f2.env[ins] = res
				x.instrs(f2, st, b, i+1, k)
			})
			return
		default:
			x.simple(fr, st, ins)
		}
	}
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (x *Exec) runDefers(fr *Frame, st *State, ds []deferred, k Cont) {
	if len(ds) == 0 {
		k(st, nil)
		return
	}
	d := ds[len(ds)-1]
	x.callWith(fr, st, d.ins, d.call, d.fn, d.args, func(st *State, _ Val) {
		x.runDefers(fr, st, ds[:len(ds)-1], k)
	})
}

func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	switch ins := in.(type) {
	case *ssa.DebugRef:
		if id := ins.Object(); id != nil {
			if !ins.IsAddr {
				if _, ok := ins.X.(*ssa.Const); !ok {
					fr.names[id.Name()] = ins.X
				}
			}
		}
	case *ssa.Alloc:
		o := x.allocVar(st, ins.Type().Underlying().(*types.Pointer).Elem())
		set(ins, Val{o})
		if ins.Comment != "" {
			fr.names["&"+ins.Comment] = ins
		}
	case *ssa.BinOp:
		set(ins, x.binop(st, ins, x.val(fr, ins.X), x.val(fr, ins.Y)))
	case *ssa.UnOp:
		v := x.val(fr, ins.X)
		switch ins.Op {
		case token.MUL:
			x.nonNil(st, v[0], ins, "dereference")
			x.guarded(fr, st, ins.X, ins)
			set(ins, x.load(st, v[0], ins.Type()))
		case token.NOT:
			set(ins, Val{Not(v[0])})
		case token.SUB:
			set(ins, Val{x.wrapTo(ins.Type(), Neg(v[0]))})
		case token.ARROW:
			// receive: value unknown
			if ins.CommaOk {
				unsup("receive with ok")
			}
			r, fs := freshVal(ins.Type(), "recv", x.alloc)
			st.assume(fs...)
			set(ins, r)
		default:
			unsup("unary %s", ins.Op)
		}
	case *ssa.ChangeType:
		set(ins, x.val(fr, ins.X))
	case *ssa.ChangeInterface:
		set(ins, x.val(fr, ins.X))
	case *ssa.Convert:
		set(ins, x.convert(st, ins, x.val(fr, ins.X)))
	case *ssa.Extract:
		tup := ins.Tuple.Type().(*types.Tuple)
		lo := 0
		for j := 0; j < ins.Index; j++ {
			lo += len(layoutOf(tup.At(j).Type()))
		}
		n := len(layoutOf(tup.At(ins.Index).Type()))
		set(ins, x.val(fr, ins.Tuple)[lo:lo+n])
	case *ssa.Field:
		lo, hi := fieldRange(ins.X.Type(), ins.Field)
		set(ins, x.val(fr, ins.X)[lo:hi])
	case *ssa.FieldAddr:
		p := x.val(fr, ins.X)[0]
		x.nonNil(st, p, ins, "field access")
		set(ins, Val{Fld(p, ins.Field)})
	case *ssa.Index:
		v := x.val(fr, ins.X)
		i := x.val(fr, ins.Index)[0]
		switch u := ins.X.Type().Underlying().(type) {
		case *types.Basic:
			x.bounds(st, i, Blen(v[0]), ins)
			set(ins, Val{At(v[0], i)})
		case *types.Array:
			x.bounds(st, i, I(u.Len()), ins)
			if isRawByte(u.Elem()) {
				set(ins, Val{At(v[0], i)})
			} else if n, ok := i.asInt(); ok {
				w := len(layoutOf(u.Elem()))
				set(ins, v[int(n)*w:int(n+1)*w])
			} else {
				unsup("symbolic index into array value")
			}
		default:
			unsup("index of %s", ins.X.Type())
		}
	case *ssa.IndexAddr:
		v := x.val(fr, ins.X)
		i := x.val(fr, ins.Index)[0]
		switch u := ins.X.Type().Underlying().(type) {
		case *types.Slice:
			x.bounds(st, i, v[2], ins)
			if isRawByte(u.Elem()) {
				byteSliceFacts(st, v)
			}
			set(ins, Val{Elt(v[0], Add(v[1], i))})
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			x.nonNil(st, v[0], ins, "array access")
			x.bounds(st, i, I(n), ins)
			set(ins, Val{Elt(v[0], i)})
		default:
			unsup("indexaddr %s", ins.X.Type())
		}
	case *ssa.Lookup:
		m := x.val(fr, ins.X)
		key := x.val(fr, ins.Index)
		if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
			x.bounds(st, key[0], Blen(m[0]), ins)
			set(ins, Val{At(m[0], key[0])})
			return
		}
		x.guarded(fr, st, ins.X, ins)
		has, v := x.mapGet(st, ins.X.Type(), m[0], key[0])
		if ins.CommaOk {
			v = append(append(Val{}, v...), has)
		}
		set(ins, v)
	case *ssa.MapUpdate:
		m := x.val(fr, ins.Map)
		x.guarded(fr, st, ins.Map, ins)
		if g := Not(Eq(m[0], tNil)); g != tTrue {
			x.safety(st, "assignment to nil map", g, ins)
		}
		x.mapSet(st, ins.Map.Type(), m[0], x.val(fr, ins.Key)[0], x.val(fr, ins.Value))
	case *ssa.MakeMap:
		set(ins, Val{x.newMap(st, ins.Type())})
	case *ssa.MakeChan:
		o := x.newObj()
		h := st.heap("H_chan.closed", ArrS(SRef, SBool))
		st.heaps["H_chan.closed"] = Sto(h, o, tFalse)
		set(ins, Val{o})
	case *ssa.MakeClosure:
		x.itSer++
		fn := ins.Fn.(*ssa.Function)
		x.alloc++
		name := fmt.Sprintf("clo")
		ref := App(SRef, name, I(x.alloc))
		x.eng.closures[ref] = &closure{fn: fn, binds: x.vals(fr, ins.Bindings)}
		set(ins, Val{ref})
	case *ssa.MakeInterface:
		set(ins, x.makeIface(ins.X.Type(), x.val(fr, ins.X)))
	case *ssa.MakeSlice:
		n := x.val(fr, ins.Len)[0]
		c := x.val(fr, ins.Cap)[0]
		x.safety(st, "make with negative length", And(Le(tZero, n), Le(n, c)), ins)
		el := ins.Type().Underlying().(*types.Slice).Elem()
		set(ins, x.makeSlice(st, el, n, c))
	case *ssa.Slice:
		set(ins, x.slice(fr, st, ins))
	case *ssa.SliceToArrayPointer:
		v := x.val(fr, ins.X)
		n := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.safety(st, "slice to array pointer", Le(I(n), v[2]), ins)
		if v[1] != tZero {
			unsup("slice to array pointer with offset")
		}
		set(ins, Val{v[0]})
	case *ssa.Store:
		p := x.val(fr, ins.Addr)
		x.nonNil(st, p[0], ins, "store")
		x.guarded(fr, st, ins.Addr, ins)
		x.store(st, p[0], ins.Addr.Type().Underlying().(*types.Pointer).Elem(), x.val(fr, ins.Val))
	case *ssa.Range:
		x.guarded(fr, st, ins.X, ins)
		x.startRange(fr, st, ins)
	case *ssa.Defer:
		d := deferred{call: &ins.Call, ins: ins}
		if !ins.Call.IsInvoke() {
			if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.val(fr, ins.Call.Value)
			}
		} else {
			d.fn = x.val(fr, ins.Call.Value)
		}
		d.args = x.vals(fr, ins.Call.Args)
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		// a goroutine that only returns
		f := ins.Call.StaticCallee()
		if f == nil || len(f.Blocks) != 1 || len(f.Blocks[0].Instrs) != 1 {
			unsup("go statement")
		}
	default:
		unsup("instruction %T %s", in, in)
	}
}

func (x *Exec) bounds(st *State, i, n *Term, ins ssa.Instruction) {
	g := And(Le(tZero, i), Lt(i, n))
	if st.simp(g) != tTrue {
		x.safety(st, "index", g, ins)
	} else {
		st.assume(g)
	}
}

func (x *Exec) makeSlice(st *State, el types.Type, n, c *Term) Val {
	o := x.newObj()
	if isRawByte(el) {
		h := st.heap("HB", ArrS(SRef, SBytes))
		st.heaps["HB"] = Sto(h, o, Zeros(c))
		return Val{o, tZero, n, c}
	}
	oi := &objInit{zero: true}
	for _, l := range layoutOf(el) {
		if l.key == "HB" {
			oi.zeroHB = Zeros(I(l.typ.Underlying().(*types.Array).Len()))
		}
	}
	objInits[o.args[0].num.Int64()] = oi
	return Val{o, tZero, n, c}
}

func (x *Exec) slice(fr *Frame, st *State, ins *ssa.Slice) Val {
	v := x.val(fr, ins.X)
	get := func(w ssa.Value, d *Term) *Term {
		if w == nil {
			return d
		}
		return x.val(fr, w)[0]
	}
	lo := get(ins.Low, tZero)
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		hi := get(ins.High, v[2])
		mx := get(ins.Max, v[3])
		g := And(Le(tZero, lo), Le(lo, hi), Le(hi, mx), Le(mx, v[3]))
		x.safety(st, "slice bounds", g, ins)
		if !isRawByte(u.Elem()) && ins.High != nil && st.simp(Le(hi, v[2])) != tTrue {
			// extending beyond the length: contents not tracked
			x.oblige(st, "reslice within length", Le(hi, v[2]), nil, x.pos(ins.Pos()))
		}
		return Val{v[0], Add(v[1], lo), Sub(hi, lo), Sub(mx, lo)}
	case *types.Basic:
		hi := get(ins.High, Blen(v[0]))
		x.safety(st, "slice bounds", And(Le(tZero, lo), Le(lo, hi), Le(hi, Blen(v[0]))), ins)
		return Val{SubB(v[0], lo, Sub(hi, lo))}
	case *types.Pointer:
		n := I(u.Elem().Underlying().(*types.Array).Len())
		x.nonNil(st, v[0], ins, "slice of array")
		hi := get(ins.High, n)
		mx := get(ins.Max, n)
		x.safety(st, "slice bounds", And(Le(tZero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), ins)
		return Val{v[0], lo, Sub(hi, lo), Sub(mx, lo)}
	}
	unsup("slice of %s", ins.X.Type())
	return nil
}

// ---------- maps ----------

func (x *Exec) mapDom(st *State, t types.Type, m *Term) *Term {
	d, _, _ := mapHeaps(t)
	if m == tNil {
		return App(domSort, "constarr", tFalse)
	}
	return Sel(st.heap(d, ArrS(SRef, domSort)), m)
}

func (x *Exec) mapVals(st *State, t types.Type, m *Term) []*Term {
	_, ls, ns := mapHeaps(t)
	var out []*Term
	for i, l := range ls {
		out = append(out, Sel(st.heap(ns[i], ArrS(SRef, ArrS(SInt, l.sort))), m))
	}
	return out
}

// mapGet: presence and value (zero if absent).
func (x *Exec) mapGet(st *State, t types.Type, m, key *Term) (*Term, Val) {
	el := t.Underlying().(*types.Map).Elem()
	if m == tNil {
		return tFalse, zeroVal(el)
	}
	has := st.simp(And(Not(Eq(m, tNil)), Sel(x.mapDom(st, t, m), key)))
	zv := zeroVal(el)
	var out Val
	for i, a := range x.mapVals(st, t, m) {
		out = append(out, Ite(has, Sel(a, key), zv[i]))
	}
	if has == tTrue {
		st.assume(wfFacts(el, out)...)
	}
	return has, out
}

func (x *Exec) mapSet(st *State, t types.Type, m, key *Term, v Val) {
	d, ls, ns := mapHeaps(t)
	h := st.heap(d, ArrS(SRef, domSort))
	st.heaps[d] = Sto(h, m, Sto(Sel(h, m), key, tTrue))
	for i, l := range ls {
		h := st.heap(ns[i], ArrS(SRef, ArrS(SInt, l.sort)))
		st.heaps[ns[i]] = Sto(h, m, Sto(Sel(h, m), key, v[i]))
	}
}

func (x *Exec) newMap(st *State, t types.Type) *Term {
	o := x.newObj()
	d, _, _ := mapHeaps(t)
	h := st.heap(d, ArrS(SRef, domSort))
	st.heaps[d] = Sto(h, o, App(domSort, "constarr", tFalse))
	return o
}

func card(s *Term) *Term { return Fn(SInt, "card", s) }

type iter struct {
	m   *Term
	t   types.Type
	key string // heaps entry holding the set of visited keys
	str *Term
}

func (x *Exec) startRange(fr *Frame, st *State, ins *ssa.Range) {
	if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
		unsup("range over %s", ins.X.Type())
	}
	m := x.val(fr, ins.X)[0]
	x.itSer++
	key := fmt.Sprintf("$vis:%s#%s", fr.fn.String(), ins.Name())
	st.heaps[key] = App(domSort, "constarr", tFalse)
	it := &iter{m: m, t: ins.X.Type(), key: key}
	ref := App(SRef, "iter", I(int64(x.itSer)))
	x.eng.iters[ref] = it
	fr.env[ins] = Val{ref}
}

func (x *Exec) next(fr *Frame, st *State, ins *ssa.Next, k Cont) {
	if ins.IsString {
		unsup("range over string")
	}
	it := x.eng.iters[x.val(fr, ins.Iter)[0]]
	tup := ins.Type().(*types.Tuple)
	el := it.t.Underlying().(*types.Map).Elem()
	kt := it.t.Underlying().(*types.Map).Key()
	dom := x.mapDom(st, it.t, it.m)
	vis := st.heaps[it.key]
	// done
	st2 := st.clone()
	bv := Var(SInt, "?it")
	if x.eng.stableIter[it.key] {
		st2.assume(Eq(vis, dom))
	} else {
		st2.assume(Quant(OForall, []*Term{bv}, Or(Not(Sel(dom, bv)), Sel(vis, bv))))
	}
	res := Val{tFalse}
	for i := 1; i < tup.Len(); i++ {
		res = append(res, invalidZero(tup.At(i).Type())...)
	}
	k(st2, res)
	// one more key
	key := Fresh(SInt, "key")
	lo, hi, _, _ := intRange(kt)
	setRange(key, lo, hi)
	st.assume(Sel(dom, key), Not(Sel(vis, key)), Not(Eq(it.m, tNil)))
	st.heaps[it.key] = Sto(vis, key, tTrue)
	res = Val{tTrue}
	if !isInvalid(tup.At(1).Type()) {
		res = append(res, key)
	}
	if !isInvalid(tup.At(2).Type()) {
		var v Val
		for _, a := range x.mapVals(st, it.t, it.m) {
			v = append(v, Sel(a, key))
		}
		st.assume(wfFacts(el, v)...)
		res = append(res, v...)
	}
	k(st, res)
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func invalidZero(t types.Type) Val {
	if isInvalid(t) {
		return nil
	}
	return zeroVal(t)
}

// ---------- interfaces ----------

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (x *Exec) makeIface(t types.Type, v Val) Val {
	id := typeID(t)
	if isPtrLike(t) {
		return Val{id, v[0]}
	}
	if len(v) == 0 {
		return Val{id, App(SRef, "dat:empty")}
	}
	name := "dat:" + typeStr(t)
	return Val{id, App(SRef, name, v...)}
}

func (x *Exec) unboxIface(t types.Type, dat *Term) Val {
	if isPtrLike(t) {
		return Val{dat}
	}
	if dat.op == OApp && dat.name == "dat:"+typeStr(t) {
		return append(Val{}, dat.args...)
	}
	var out Val
	for i, l := range layoutOf(t) {
		out = append(out, App(l.sort, fmt.Sprintf("unbox%d:%s", i, typeStr(t)), dat))
	}
	return out
}

func (x *Exec) typeAssert(fr *Frame, st *State, ins *ssa.TypeAssert, k Cont) {
	v := x.val(fr, ins.X)
	if types.IsInterface(ins.AssertedType) {
		if id, ok := v[0].asInt(); ok && id > 0 {
			okv := types.Implements(typeByID[id], ins.AssertedType.Underlying().(*types.Interface))
			r := append(Val{}, v...)
			if ins.CommaOk {
				r = append(r, B(okv))
			} else if !okv {
				x.safety(st, "type assertion", tFalse, ins)
			}
			k(st, r)
			return
		}
		unsup("assertion to interface type")
	}
	is := st.simp(Eq(v[0], typeID(ins.AssertedType)))
	if !ins.CommaOk {
		x.safety(st, "type assertion", is, ins)
		k(st, x.unboxIface(ins.AssertedType, v[1]))
		return
	}
	if is != tTrue {
		st2 := st.clone()
		st2.assume(Not(is))
		k(st2, append(zeroVal(ins.AssertedType), tFalse))
	}
	if is != tFalse {
		st.assume(is)
		k(st, append(append(Val{}, x.unboxIface(ins.AssertedType, v[1])...), tTrue))
	}
}

// ---------- operators ----------

func (x *Exec) wrapTo(t types.Type, v *Term) *Term {
	_, _, bits, ok := intRange(t)
	if !ok {
		unsup("wrap to %s", t)
	}
	if bits > 0 {
		return Wrap(v, bits)
	}
	lo, hi, _, _ := intRange(t)
	if b, _ := t.Underlying().(*types.Basic); b != nil && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt) {
		return v // 64-bit signed arithmetic is treated as mathematical
	}
	l, h := Range(v)
	if l == nil || h == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0 {
		half := AddI(BigNum(SInt, hi), 1)
		n := uint(half.num.BitLen())
		return Sub(Wrap(Add(v, half), n), half)
	}
	return v
}

func pow2(n *big.Int) (uint, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	k := uint(n.BitLen() - 1)
	return k, new(big.Int).Lsh(big.NewInt(1), k).Cmp(n) == 0
}

func (x *Exec) binop(st *State, ins *ssa.BinOp, a, b Val) Val {
	switch ins.Op {
	case token.EQL, token.NEQ:
		var cs []*Term
		t := ins.X.Type()
		if types.IsInterface(t) != types.IsInterface(ins.Y.Type()) {
			if types.IsInterface(t) {
				b = x.makeIface(ins.Y.Type(), b)
			} else {
				a = x.makeIface(t, a)
			}
		}
		if types.IsInterface(t) {
			if b[0] == tZero {
				cs = append(cs, Eq(a[0], tZero))
			} else if a[0] == tZero {
				cs = append(cs, Eq(b[0], tZero))
			} else {
				cs = append(cs, Eq(a[0], b[0]), Or(Eq(a[0], tZero), Eq(a[1], b[1])))
			}
		} else if _, ok := t.Underlying().(*types.Slice); ok {
			cs = append(cs, Eq(a[0], b[0])) // comparison with nil
		} else {
			for i := range a {
				cs = append(cs, Eq(a[i], b[i]))
			}
		}
		r := And(cs...)
		if ins.Op == token.NEQ {
			r = Not(r)
		}
		return Val{r}
	}
	p, q := a[0], b[0]
	if p.sort == SBytes {
		if ins.Op == token.ADD {
			return Val{Cat(p, q)}
		}
		unsup("string %s", ins.Op)
	}
	if p.sort == SBool {
		switch ins.Op {
		case token.AND:
			return Val{And(p, q)}
		case token.OR:
			return Val{Or(p, q)}
		}
		unsup("bool %s", ins.Op)
	}
	if p.sort != SInt {
		unsup("operator %s on %s", ins.Op, ins.X.Type())
	}
	switch ins.Op {
	case token.LSS:
		return Val{Lt(p, q)}
	case token.LEQ:
		return Val{Le(p, q)}
	case token.GTR:
		return Val{Gt(p, q)}
	case token.GEQ:
		return Val{Ge(p, q)}
	case token.ADD:
		return Val{x.wrapTo(ins.Type(), Add(p, q))}
	case token.SUB:
		return Val{x.wrapTo(ins.Type(), Sub(p, q))}
	case token.MUL:
		return Val{x.wrapTo(ins.Type(), Mul(p, q))}
	case token.QUO, token.REM:
		if q.isNum() && q.num.Sign() > 0 {
			lo, _ := Range(p)
			if lo == nil || lo.Sign() < 0 {
				x.oblige(st, "division of a non-negative number", Le(tZero, p), nil, x.pos(ins.Pos()))
			}
			if ins.Op == token.QUO {
				return Val{IDiv(p, q.num)}
			}
			return Val{IMod(p, q.num)}
		}
		x.safety(st, "division by zero", Not(Eq(q, tZero)), ins)
		unsup("division by a variable")
	case token.SHL:
		if n, ok := q.asInt(); ok && n < 64 {
			return Val{x.wrapTo(ins.Type(), scale(p, new(big.Int).Lsh(big.NewInt(1), uint(n))))}
		}
	case token.SHR:
		if n, ok := q.asInt(); ok && n < 64 {
			return Val{IDiv(p, new(big.Int).Lsh(big.NewInt(1), uint(n)))}
		}
	case token.AND:
		for _, pr := range [][2]*Term{{p, q}, {q, p}} {
			if pr[1].isNum() {
				if _, ok := pow2(new(big.Int).Add(pr[1].num, big.NewInt(1))); ok {
					return Val{IMod(pr[0], new(big.Int).Add(pr[1].num, big.NewInt(1)))}
				}
			}
		}
	case token.OR, token.XOR:
		if p == tZero {
			return Val{q}
		}
		if q == tZero {
			return Val{p}
		}
		if disjointBits(p, q) || disjointBits(q, p) {
			return Val{Add(p, q)}
		}
	}
	switch ins.Op {
	case token.OR, token.XOR, token.AND:
		// on bits
		if isBit(p) && isBit(q) {
			switch ins.Op {
			case token.OR:
				return Val{Ite(Eq(p, tZero), q, tOne)}
			case token.AND:
				return Val{Ite(Eq(p, tZero), tZero, q)}
			}
			return Val{Ite(Eq(p, tZero), q, Sub(tOne, q))}
		}
	}
	// uninterpreted bit operation with range
	_, _, bits, _ := intRange(ins.Type())
	if bits == 0 {
		unsup("operator %s", ins.Op)
	}
	name := fmt.Sprintf("bit%d_%d", bits, ins.Op)
	lo, hi, _, _ := intRange(ins.Type())
	appRange[name] = [2]*big.Int{lo, hi}
	if (ins.Op == token.OR || ins.Op == token.XOR || ins.Op == token.AND) && p.id > q.id {
		p, q = q, p
	}
	return Val{App(SInt, name, p, q)}
}

func isBit(p *Term) bool {
	lo, hi := Range(p)
	return lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(1)) <= 0
}

// disjointBits: p is a multiple of 2^k and 0 <= q < 2^k.
func disjointBits(p, q *Term) bool {
	lo, hi := Range(q)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	k := uint(hi.BitLen())
	m := new(big.Int).Lsh(big.NewInt(1), k)
	for _, mo := range monsOf(p) {
		if new(big.Int).Mod(mo.c, m).Sign() != 0 {
			return false
		}
	}
	pl, _ := Range(p)
	return pl != nil && pl.Sign() >= 0
}

func (x *Exec) convert(st *State, ins *ssa.Convert, v Val) Val {
	from, to := ins.X.Type(), ins.Type()
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		lo, hi, bits, _ := intRange(to)
		l, h := Range(v[0])
		if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return v
		}
		if bits > 0 {
			return Val{Wrap(v[0], bits)}
		}
		if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
			return v
		}
		unsup("conversion %s to %s", from, to)
	}
	if fs, ok := from.Underlying().(*types.Slice); ok && tb != nil && tb.Info()&types.IsString != 0 && isRawByte(fs.Elem()) {
		return Val{x.bytesOf(st, v)}
	}
	if ts, ok := to.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 && isRawByte(ts.Elem()) {
		return x.newBytes(st, v[0])
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// boundMethod: the method a method value calls.
func boundMethod(w *ssa.Function) *ssa.Function {
	if !strings.HasPrefix(w.Synthetic, "bound") {
		return nil
	}
	for _, b := range w.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
				return c.Call.StaticCallee()
			}
		}
	}
	return nil
}

// ---------- lock discipline ----------

// Protected names the fields of a struct that may only be used while the lock is held:
// the ghost field `ghost` of the object is then 1.
type Protected struct {
	ghost  string
	props  []string
	fields map[string]bool
}

func baseObj(p *Term) *Term {
	for p.is("fld") {
		p = p.args[0]
	}
	return p
}

// guarded: if the operand reaches memory through a protected field, the lock is held, or
// the object is new here and nobody else can know it yet.
func (x *Exec) guarded(fr *Frame, st *State, v ssa.Value, ins ssa.Instruction) {
	if len(x.eng.protected) == 0 {
		return
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.FieldAddr:
			pt := u.X.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := pt.(*types.Named); ok && n.Obj().Pkg() != nil {
				pr := x.eng.protected[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
				f := pt.Underlying().(*types.Struct).Field(u.Field).Name()
				if pr != nil && pr.fields[f] {
					pv, ok := fr.env[u.X]
					if !ok {
						if _, isIns := u.X.(ssa.Instruction); isIns {
							return // not on this path
						}
						pv = x.val(fr, u.X)
					}
					o := baseObj(pv[0])
					if x.ownNew(o) && !hasTerm(st.escaped, o) {
						return
					}
					x.oblige(st, "lock held for "+f, Eq(Sel(st.heap("$g_"+pr.ghost, ArrS(SRef, SInt)), o), tOne), pr.props, x.pos(ins.Pos()))
					return
				}
			}
			walk(u.X)
		case *ssa.IndexAddr:
			walk(u.X)
		case *ssa.UnOp:
			if u.Op == token.MUL {
				// what a protected field refers to: maps and slices are part of it
				switch u.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					walk(u.X)
				}
			}
		case *ssa.Slice:
			walk(u.X)
		case *ssa.Phi:
			for _, e := range u.Edges {
				walk(e)
			}
		}
	}
	walk(v)
}

// ownNew: an object allocated by the function under verification.
func (x *Exec) ownNew(o *Term) bool {
	if !o.is("obj") {
		return false
	}
	n, ok := o.args[0].asInt()
	return ok && n > 0
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, u := range ts {
		if u == t {
			return true
		}
	}
	return false
}

// escape: a function value is handed to another goroutine, with what it refers to.
func (x *Exec) escape(st *State, f *Term) {
	cl := x.eng.closures[f]
	if cl == nil {
		return
	}
	for i, b := range cl.binds {
		t := cl.fn.FreeVars[i].Type()
		if p, ok := t.Underlying().(*types.Pointer); ok && len(b) == 1 {
			st.escaped = append(st.escaped, baseObj(b[0]))
			if _, ok := p.Elem().Underlying().(*types.Pointer); ok {
				st.escaped = append(st.escaped, baseObj(x.load(st, b[0], p.Elem())[0]))
			}
		}
	}
}

// needContract: a function run by somebody else is verified on its own.
func (x *Exec) needContract(f *Term) {
	if cl := x.eng.closures[f]; cl != nil {
		for n, c := range x.eng.contracts {
			fn := x.eng.byKey[n]
			if !c.Extern && fn != nil && (fn == cl.fn || boundMethod(cl.fn) == fn) {
				return
			}
		}
	}
	unsup("callback without a contract")
}
