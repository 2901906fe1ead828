package main

// The contract language: clauses over Go expressions.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type exprNode = ast.Expr

type Clause struct {
	kind    string // requires ensures sets returns fresh modifies
	name    string // result name for returns/fresh
	lhs     ast.Expr
	expr    ast.Expr
	src     string
	tags    []string
	assumed bool
	id      string
	loose   bool // appends: possibly in several steps
	insts   []lemInst
	chain   bool // may use the ensures clauses before it
}

type Case struct {
	cond    ast.Expr
	src     string
	clauses []*Clause
}

type Contract struct {
	Chain   bool
	Name    string
	Params  []string
	Results []string
	Common  []*Clause
	Cases   []*Case
	Invs    []*InvSpec
	Props   []string // default properties
	Safety  []string // properties of safety obligations and callee preconditions
	Extern  bool     // assumed, not verified
	Note    string
	File    string
	Uses    []string
	Insts   []lemInst
	Budget  int
	Known   map[string]Val
	Timeout int
	fn      *ssa.Function
}

func (c *Contract) SafetyProps() []string {
	return c.Safety
}

type Macro struct {
	name   string
	params []string
	body   ast.Expr
	src    string
}

type FunDecl struct {
	name string
	args []Sort
	ret  Sort
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

// SVal is a value of the contract language: a Go value (t != nil) or a single ghost term.
type SVal struct {
	v    Val
	t    types.Type
	addr *Term
}

func ghost(t *Term) SVal { return SVal{v: Val{t}} }

type SpecEnv struct {
	x        *Exec
	st       *State
	old      *State
	names    map[string]SVal
	mark     int64 // objects numbered above are fresh
	given    map[string]Val
	depth    int
	lemcalls bool
}

func (x *Exec) specEnv(st, old *State) *SpecEnv {
	return &SpecEnv{x: x, st: st, old: old, names: map[string]SVal{}}
}

func (e *SpecEnv) bindParams(con *Contract, sig *types.Signature, args []Val) {
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts) != len(con.Params) || len(args) != len(ts) {
		serr("%s: %d parameters in the contract, %d in the code", con.Name, len(con.Params), len(ts))
	}
	if sig.Results().Len() != len(con.Results) {
		serr("%s: %d results in the contract, %d in the code", con.Name, len(con.Results), sig.Results().Len())
	}
	for i, n := range con.Params {
		e.names[n] = SVal{v: args[i], t: ts[i]}
	}
}

func (e *SpecEnv) atOld() *SpecEnv {
	n := *e
	n.st = e.old
	return &n
}

// rhs evaluates an assigned value in this (old) environment, with results visible.
func (e *SpecEnv) rhs(cur *SpecEnv, x ast.Expr, t types.Type) SVal {
	n := *e
	n.names = cur.names
	n.st = e.old
	return n.eval(x)
}

func (e *SpecEnv) with(name string, v SVal) *SpecEnv {
	n := *e
	n.names = make(map[string]SVal, len(e.names)+1)
	for k, w := range e.names {
		n.names[k] = w
	}
	n.names[name] = v
	return &n
}

func (e *SpecEnv) boolExpr(x ast.Expr, src string) *Term {
	v := e.eval(x)
	if len(v.v) != 1 || v.v[0].sort != SBool {
		serr("not a condition: %s", src)
	}
	return v.v[0]
}

func (e *SpecEnv) term(x ast.Expr) *Term {
	v := e.eval(x)
	if len(v.v) != 1 {
		serr("%s: not a single term", exprStr(x))
	}
	return v.v[0]
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

// coerce adapts a spec value to a Go type.
func (e *SpecEnv) coerce(v SVal, t types.Type) Val {
	n := len(layoutOf(t))
	if v.t == nil && len(v.v) == 1 && v.v[0] == tNil && n != 1 {
		return zeroVal(t)
	}
	if types.IsInterface(t) && v.t != nil && !types.IsInterface(v.t) {
		return e.x.makeIface(v.t, v.v)
	}
	if len(v.v) != n {
		serr("value of %d terms used as %s", len(v.v), t)
	}
	ls := layoutOf(t)
	out := make(Val, n)
	for i := range v.v {
		out[i] = v.v[i]
		if v.v[i].sort != ls[i].sort {
			if v.v[i].sort == SInt && v.v[i].isNum() && isNumSort(ls[i].sort) {
				out[i] = BigNum(ls[i].sort, v.v[i].num)
				continue
			}
			serr("value of sort %s used as %s", v.v[i].sort, t)
		}
	}
	return out
}

// resultExpr evaluates a returned value; newbytes, errnew and new allocate.
func (e *SpecEnv) resultExpr(x ast.Expr, t types.Type) SVal {
	if c, ok := x.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "newbytes":
				b := e.atOld().rhs(e, c.Args[0], nil).v[0]
				v := e.x.newBytes(e.st, b)
				if len(c.Args) == 1 {
					cp := Fresh(SBytes, "pad")
					e.st.heaps["HB"] = Sto(e.st.heaps["HB"], v[0], Cat(b, cp))
					v[3] = Add(v[2], Blen(cp))
				}
				return SVal{v: v, t: t}
			case "errnew":
				return SVal{v: e.x.freshErr(e.st), t: t}
			}
		}
	}
	return e.atOld().rhs(e, x, t)
}

// location evaluates an assignable expression.
func (e *SpecEnv) location(x ast.Expr) SVal {
	v := e.eval(x)
	return v
}

func (e *SpecEnv) assign(loc SVal, val SVal) {
	if loc.addr == nil {
		serr("assignment to something that is not a location")
	}
	if loc.addr.is("mapcell") {
		m, k := loc.addr.args[0], loc.addr.args[1]
		e.x.mapSet(e.st, loc.t, m, k, e.coerce(val, loc.t.Underlying().(*types.Map).Elem()))
		return
	}
	if loc.addr.is("mapall") {
		m := loc.addr.args[0]
		d, ls, ns := mapHeaps(loc.t)
		if len(val.v) != 1+len(ls) {
			serr("map value expected")
		}
		e.st.heaps[d] = Sto(e.st.heap(d, ArrS(SRef, domSort)), m, val.v[0])
		for i, l := range ls {
			e.st.heaps[ns[i]] = Sto(e.st.heap(ns[i], ArrS(SRef, ArrS(SInt, l.sort))), m, val.v[i+1])
		}
		return
	}
	if loc.addr.is("ghost") || strings.HasPrefix(loc.addr.name, "ghost:") {
		key := strings.TrimPrefix(loc.addr.name, "ghost:")
		if len(loc.addr.args) == 0 {
			e.st.heaps[key] = val.v[0]
		} else {
			h := e.st.heap(key, ArrS(SRef, val.v[0].sort))
			e.st.heaps[key] = Sto(h, loc.addr.args[0], val.v[0])
		}
		return
	}
	if loc.addr.is("bytesof") {
		// contents of a byte slice
		a, off, n := loc.addr.args[0], loc.addr.args[1], loc.addr.args[2]
		_ = n
		h := e.st.heap("HB", ArrS(SRef, SBytes))
		e.st.heaps["HB"] = Sto(h, a, Splice(Sel(h, a), off, val.v[0]))
		return
	}
	e.x.store(e.st, loc.addr, loc.t, e.coerce(val, loc.t))
}

// modifies returns the memory patterns of a modifies item.
func (e *SpecEnv) modifies(x ast.Expr) []modPat {
	if c, ok := x.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "anything":
				return []modPat{{}}
			case "elems":
				s := e.eval(c.Args[0])
				el := s.t.Underlying().(*types.Slice).Elem()
				if isRawByte(el) {
					return []modPat{{"HB", ArrS(SRef, SBytes), s.v[0]}}
				}
				w := Var(SInt, "?w")
				var out []modPat
				for _, l := range layoutOf(el) {
					out = append(out, modPat{l.key, ArrS(SRef, l.sort), leafAddr(Elt(s.v[0], w), l)})
				}
				return out
			case "mapof":
				m := e.eval(c.Args[0])
				d, ls, ns := mapHeaps(m.t)
				out := []modPat{{d, ArrS(SRef, domSort), m.v[0]}}
				for i, l := range ls {
					out = append(out, modPat{ns[i], ArrS(SRef, ArrS(SInt, l.sort)), m.v[0]})
				}
				return out
			case "anyghost":
				// a ghost field of every object
				key := "$g_" + strings.Trim(c.Args[0].(*ast.BasicLit).Value, "\"")
				return []modPat{{key, ArrS(SRef, e.x.eng.ghostSorts[key]), nil}}
			case "heap":
				// a whole heap: every location holding this type of leaf
				var out []modPat
				t := e.x.eng.lookupType(strings.Trim(c.Args[0].(*ast.BasicLit).Value, "\"`"))
				for _, l := range layoutOf(t) {
					out = append(out, modPat{l.key, ArrS(SRef, l.sort), nil})
				}
				return out
			case "targets":
				// the targets of the pointers in a slice
				sl := e.eval(c.Args[0])
				pt := sl.t.Underlying().(*types.Slice).Elem()
				el := pt.Underlying().(*types.Pointer).Elem()
				w := boundedWild(sl.v[1], Add(sl.v[1], sl.v[2]))
				p := e.x.load(e.st.clone(), Elt(sl.v[0], w), pt)
				var out []modPat
				for _, l := range layoutOf(el) {
					out = append(out, modPat{l.key, ArrS(SRef, l.sort), leafAddr(p[0], l)})
				}
				return out
			case "mapfield":
				// mapfield(m, F): the field F of the targets of the pointers in a map
				m := e.eval(c.Args[0])
				el := m.t.Underlying().(*types.Map).Elem()
				w := Var(SInt, "?w")
				e2 := e.with("$p", SVal{v: Val{Sel(e.x.mapVals(e.st, m.t, m.v[0])[0], w)}, t: el})
				return e2.modifies(&ast.SelectorExpr{X: ast.NewIdent("$p"), Sel: c.Args[1].(*ast.Ident)})
			case "mapvals":
				// the targets of the pointers in a map
				m := e.eval(c.Args[0])
				el := m.t.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer).Elem()
				var out []modPat
				w := Var(SInt, "?w")
				a := e.x.mapVals(e.st, m.t, m.v[0])[0]
				for _, l := range layoutOf(el) {
					out = append(out, modPat{l.key, ArrS(SRef, l.sort), leafAddr(Sel(a, w), l)})
				}
				return out
			}
		}
	}
	v := e.location(x)
	if v.addr == nil {
		serr("modifies %s: not a location", exprStr(x))
	}
	if v.addr.is("mapcell") {
		d, ls, ns := mapHeaps(v.t)
		out := []modPat{{d, ArrS(SRef, domSort), v.addr.args[0]}}
		for i, l := range ls {
			out = append(out, modPat{ns[i], ArrS(SRef, ArrS(SInt, l.sort)), v.addr.args[0]})
		}
		return out
	}
	if v.addr.is("mapall") {
		d, ls, ns := mapHeaps(v.t)
		out := []modPat{{d, ArrS(SRef, domSort), v.addr.args[0]}}
		for i, l := range ls {
			out = append(out, modPat{ns[i], ArrS(SRef, ArrS(SInt, l.sort)), v.addr.args[0]})
		}
		return out
	}
	if strings.HasPrefix(v.addr.name, "ghost:") {
		key := strings.TrimPrefix(v.addr.name, "ghost:")
		if len(v.addr.args) == 0 {
			return []modPat{{key, v.v[0].sort, tNil}}
		}
		return []modPat{{key, ArrS(SRef, v.v[0].sort), v.addr.args[0]}}
	}
	if v.addr.is("bytesof") {
		return []modPat{{"HB", ArrS(SRef, SBytes), v.addr.args[0]}}
	}
	var out []modPat
	if isRawByte(v.t) && v.addr.is("elt") {
		return []modPat{{"HB", ArrS(SRef, SBytes), v.addr.args[0]}}
	}
	for _, l := range layoutOf(v.t) {
		out = append(out, modPat{l.key, ArrS(SRef, l.sort), leafAddr(v.addr, l)})
	}
	return out
}

// ---------- evaluation ----------

func num(x SVal) *Term {
	if len(x.v) != 1 {
		serr("number expected")
	}
	return x.v[0]
}

func unify(a, b *Term) (*Term, *Term) {
	if a.sort == b.sort {
		return a, b
	}
	if a.sort == SInt && a.isNum() && isNumSort(b.sort) {
		return BigNum(b.sort, a.num), b
	}
	if b.sort == SInt && b.isNum() && isNumSort(a.sort) {
		return a, BigNum(a.sort, b.num)
	}
	if a.sort == SInt && b.sort == SF {
		return toF(a), b
	}
	if b.sort == SInt && a.sort == SF {
		return a, toF(b)
	}
	serr("operands of sorts %s and %s: %s, %s", a.sort, b.sort, a, b)
	return nil, nil
}

func (e *SpecEnv) equal(a, b SVal) *Term {
	// comparisons with nil
	if a.t == nil && len(a.v) == 1 && a.v[0] == tNil {
		a, b = b, a
	}
	if b.t == nil && len(b.v) == 1 && b.v[0] == tNil && a.t != nil {
		if types.IsInterface(a.t) {
			return Eq(a.v[0], tZero)
		}
		return Eq(a.v[0], tNil)
	}
	if a.t != nil && b.t != nil {
		if types.IsInterface(a.t) && !types.IsInterface(b.t) {
			b = SVal{v: e.x.makeIface(b.t, b.v), t: a.t}
		}
		if types.IsInterface(b.t) && !types.IsInterface(a.t) {
			a = SVal{v: e.x.makeIface(a.t, a.v), t: b.t}
		}
	}
	if len(a.v) != len(b.v) {
		serr("comparison of values of different shape")
	}
	if len(a.v) == 1 {
		p, q := unify(a.v[0], b.v[0])
		return Eq(p, q)
	}
	var cs []*Term
	for i := range a.v {
		cs = append(cs, Eq(a.v[i], b.v[i]))
	}
	return And(cs...)
}

func (e *SpecEnv) eval(x ast.Expr) SVal {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(n.Value, 0)
			return ghost(BigNum(SInt, b))
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				serr("string %s", n.Value)
			}
			return ghost(Lit(s))
		}
	case *ast.Ident:
		return e.ident(n)
	case *ast.StarExpr:
		p := e.eval(n.X)
		if p.t == nil {
			serr("dereference of ghost value %s", exprStr(n))
		}
		pt, ok := p.t.Underlying().(*types.Pointer)
		if !ok {
			serr("dereference of %s", exprStr(n.X))
		}
		return e.at(p.v[0], pt.Elem())
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.IndexExpr:
		return e.index(n)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		if len(v.v) != 1 || v.v[0].sort != SBytes {
			serr("slice of %s", exprStr(n.X))
		}
		lo, hi := tZero, Blen(v.v[0])
		if n.Low != nil {
			lo = e.term(n.Low)
		}
		if n.High != nil {
			hi = e.term(n.High)
		}
		return ghost(SubB(v.v[0], lo, Sub(hi, lo)))
	case *ast.UnaryExpr:
		v := e.eval(n.X)
		switch n.Op {
		case token.NOT:
			return ghost(Not(v.v[0]))
		case token.SUB:
			return ghost(Neg(v.v[0]))
		case token.AND:
			if v.addr == nil {
				serr("address of %s", exprStr(n.X))
			}
			return SVal{v: Val{v.addr}, t: types.NewPointer(v.t)}
		}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.CallExpr:
		return e.callExpr(n)
	}
	serr("expression %s", exprStr(x))
	return SVal{}
}

// at reads a location in the current state of the environment.
func (e *SpecEnv) at(addr *Term, t types.Type) SVal {
	if addr.op == OVar && strings.HasPrefix(addr.name, "?") || addr.free {
		// under a quantifier: no facts about the value
		if isRawByte(t) && addr.is("elt") {
			return SVal{v: e.x.load(e.st.clone(), addr, t), t: t, addr: addr}
		}
		return SVal{v: e.x.load(e.st.clone(), addr, t), t: t, addr: addr}
	}
	return SVal{v: e.x.load(e.st, addr, t), t: t, addr: addr}
}

func (e *SpecEnv) ident(n *ast.Ident) SVal {
	switch n.Name {
	case "true":
		return ghost(tTrue)
	case "false":
		return ghost(tFalse)
	case "nil":
		return ghost(tNil)
	}
	if v, ok := e.names[n.Name]; ok {
		return v
	}
	if strings.HasPrefix(n.Name, "ghost_") {
		key := "$" + n.Name[6:]
		h := e.st.heap(key, SInt)
		return SVal{v: Val{h}, addr: App(SRef, "ghost:"+key)}
	}
	if m, ok := e.x.eng.macros[n.Name]; ok && len(m.params) == 0 {
		return e.expand(m, nil)
	}
	if f, ok := e.x.eng.funs[n.Name]; ok && len(f.args) == 0 {
		return ghost(App(f.ret, f.name))
	}
	serr("unknown name %s", n.Name)
	return SVal{}
}

func (e *SpecEnv) expand(m *Macro, args []SVal) SVal {
	if e.depth > 40 {
		serr("macro %s: expansion too deep", m.name)
	}
	if len(args) != len(m.params) {
		serr("macro %s takes %d arguments", m.name, len(m.params))
	}
	n := *e
	n.depth++
	n.names = map[string]SVal{}
	for i, p := range m.params {
		n.names[p] = args[i]
	}
	return n.eval(m.body)
}

func (e *SpecEnv) selector(n *ast.SelectorExpr) SVal {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, bound := e.names[id.Name]; !bound {
			if g := e.x.eng.globalByName(id.Name, n.Sel.Name); g != nil {
				return e.at(Glob(g.Pkg.Pkg.Path()+"."+g.Name()), g.Type().Underlying().(*types.Pointer).Elem())
			}
			if c := e.x.eng.constByName(id.Name, n.Sel.Name); c != nil {
				return SVal{v: e.x.constVal(c.Value), t: c.Type()}
			}
		}
	}
	b := e.eval(n.X)
	if b.t == nil {
		serr("field %s of ghost value", n.Sel.Name)
	}
	return e.field(b, n.Sel.Name)
}

func (e *SpecEnv) field(b SVal, name string) SVal {
	t := b.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	obj, path, _ := types.LookupFieldOrMethod(b.t, true, e.x.eng.pkgOf(t), name)
	if f, ok := obj.(*types.Var); !ok || !f.IsField() {
		serr("no field %s in %s", name, b.t)
	}
	for _, i := range path {
		b = e.fieldIdx(b, i)
	}
	return b
}

func (e *SpecEnv) fieldIdx(b SVal, i int) SVal {
	if p, ok := b.t.Underlying().(*types.Pointer); ok {
		ft := p.Elem().Underlying().(*types.Struct).Field(i).Type()
		return e.at(Fld(b.v[0], i), ft)
	}
	st := b.t.Underlying().(*types.Struct)
	lo, hi := fieldRange(b.t, i)
	r := SVal{v: b.v[lo:hi], t: st.Field(i).Type()}
	if b.addr != nil {
		r.addr = Fld(b.addr, i)
	}
	return r
}

func (e *SpecEnv) index(n *ast.IndexExpr) SVal {
	b := e.eval(n.X)
	i := e.term(n.Index)
	if b.t == nil {
		if b.v[0].sort == SBytes {
			return ghost(At(b.v[0], i))
		}
		return ghost(Sel(b.v[0], i))
	}
	switch u := b.t.Underlying().(type) {
	case *types.Slice:
		return e.at(Elt(b.v[0], Add(b.v[1], i)), u.Elem())
	case *types.Map:
		var v Val
		for _, a := range e.x.mapVals(e.st, b.t, b.v[0]) {
			v = append(v, Sel(a, i))
		}
		return SVal{v: v, t: u.Elem()}
	case *types.Array:
		if isRawByte(u.Elem()) {
			return ghost(At(b.v[0], i))
		}
		if b.addr != nil {
			return e.at(Elt(b.addr, i), u.Elem())
		}
	case *types.Pointer:
		return e.at(Elt(b.v[0], i), u.Elem().Underlying().(*types.Array).Elem())
	}
	serr("index of %s", exprStr(n.X))
	return SVal{}
}

func (e *SpecEnv) binary(n *ast.BinaryExpr) SVal {
	switch n.Op {
	case token.LAND:
		return ghost(And(e.boolExpr(n.X, exprStr(n.X)), e.boolExpr(n.Y, exprStr(n.Y))))
	case token.LOR:
		return ghost(Or(e.boolExpr(n.X, exprStr(n.X)), e.boolExpr(n.Y, exprStr(n.Y))))
	}
	a, b := e.eval(n.X), e.eval(n.Y)
	switch n.Op {
	case token.EQL:
		return ghost(e.equal(a, b))
	case token.NEQ:
		return ghost(Not(e.equal(a, b)))
	}
	p, q := unify(num(a), num(b))
	switch n.Op {
	case token.LSS:
		return ghost(Lt(p, q))
	case token.LEQ:
		return ghost(Le(p, q))
	case token.GTR:
		return ghost(Gt(p, q))
	case token.GEQ:
		return ghost(Ge(p, q))
	case token.ADD:
		if p.sort == SBytes {
			return ghost(Cat(p, q))
		}
		return ghost(Add(p, q))
	case token.SUB:
		return ghost(Sub(p, q))
	case token.MUL:
		return ghost(Mul(p, q))
	case token.QUO:
		if p.sort == SInt {
			if !q.isNum() {
				serr("division by a variable")
			}
			return ghost(IDiv(p, q.num))
		}
		return ghost(Mul(p, Inv(q)))
	case token.REM:
		return ghost(IMod(p, q.num))
	}
	serr("operator %s", n.Op)
	return SVal{}
}

var bvSer int

func boundVar(s Sort, name string) *Term {
	bvSer++
	return Var(s, fmt.Sprintf("?%s_%d", name, bvSer))
}

func parseSort(s string) Sort {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		return ArrS(parseSort(s[1:i]), parseSort(s[i+1:]))
	}
	switch s {
	case "Int", "Bool", "F", "K", "Pt", "Ref", "Bytes":
		return Sort(s)
	}
	serr("unknown sort %q", s)
	return ""
}

func (e *SpecEnv) content(v SVal) *Term {
	if v.t == nil {
		if v.v[0].sort != SBytes {
			serr("bytes of a %s", v.v[0].sort)
		}
		return v.v[0]
	}
	switch u := v.t.Underlying().(type) {
	case *types.Slice:
		if isRawByte(u.Elem()) {
			return e.x.bytesOf(e.st, v.v)
		}
	case *types.Array, *types.Basic:
		if len(v.v) == 1 && v.v[0].sort == SBytes {
			return v.v[0]
		}
	case *types.Pointer:
		return e.content(e.at(v.v[0], u.Elem()))
	}
	serr("bytes of %s", v.t)
	return nil
}

func (e *SpecEnv) callExpr(n *ast.CallExpr) SVal {
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		serr("call %s", exprStr(n))
	}
	name := id.Name
	arg := func(i int) SVal { return e.eval(n.Args[i]) }
	need := func(k int) {
		if len(n.Args) != k {
			serr("%s takes %d arguments", name, k)
		}
	}
	if e.lemcalls && lemmas[name] != nil {
		return ghost(e.lemmaCall(name, n.Args))
	}
	switch name {
	case "old":
		need(1)
		return e.atOld().eval(n.Args[0])
	case "implies":
		need(2)
		return ghost(Implies(e.boolExpr(n.Args[0], ""), e.boolExpr(n.Args[1], "")))
	case "ite":
		need(3)
		c := e.boolExpr(n.Args[0], "")
		a, b := arg(1), arg(2)
		if len(a.v) == 1 && len(b.v) == 1 {
			p, q := unify(a.v[0], b.v[0])
			return SVal{v: Val{Ite(c, p, q)}, t: a.t}
		}
		var v Val
		for i := range a.v {
			v = append(v, Ite(c, a.v[i], b.v[i]))
		}
		return SVal{v: v, t: a.t}
	case "forall", "exists", "lam":
		// forall(i, P) or forall(i, lo, hi, P); names may carry a sort: i_F is written sorted("F", i)
		bn, srt := boundName(n.Args[0])
		v := boundVar(srt, bn)
		e2 := e.with(bn, ghost(v))
		var rng *Term = tTrue
		body := n.Args[len(n.Args)-1]
		if len(n.Args) == 4 {
			rng = And(Le(e.term(n.Args[1]), v), Lt(v, e.term(n.Args[2])))
		}
		// reads under the binder must not add facts to the state
		e2.st = e.st.clone()
		if name == "lam" {
			return ghost(Lam(v, e2.term(body)))
		}
		p := e2.boolExpr(body, exprStr(body))
		if name == "forall" {
			return ghost(Quant(OForall, []*Term{v}, Implies(rng, p)))
		}
		return ghost(Quant(OExists, []*Term{v}, And(rng, p)))
	case "len":
		need(1)
		v := arg(0)
		if v.t == nil {
			return ghost(Blen(v.v[0]))
		}
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			return ghost(v.v[2])
		case *types.Map:
			return ghost(card(e.x.mapDom(e.st, v.t, v.v[0])))
		case *types.Basic:
			return ghost(Blen(v.v[0]))
		case *types.Array:
			return ghost(I(u.Len()))
		}
		serr("len of %s", v.t)
	case "cap":
		return ghost(arg(0).v[3])
	case "bytes":
		v := arg(0)
		r := ghost(e.content(v))
		if v.t != nil {
			if _, ok := v.t.Underlying().(*types.Slice); ok {
				r.addr = App(SRef, "bytesof", v.v[0], v.v[1], v.v[2])
				r.t = nil
			}
		}
		return r
	case "has":
		need(2)
		m := arg(0)
		k := num(arg(1))
		if m.t == nil {
			return ghost(Sel(m.v[0], k))
		}
		return ghost(Sel(e.x.mapDom(e.st, m.t, m.v[0]), k))
	case "dom":
		m := arg(0)
		return ghost(e.x.mapDom(e.st, m.t, m.v[0]))
	case "mval": // the array of the i-th component of a map's values
		m := arg(0)
		i := 0
		if len(n.Args) > 1 {
			k, _ := num(arg(1)).asInt()
			i = int(k)
		}
		return ghost(e.x.mapVals(e.st, m.t, m.v[0])[i])
	case "cell": // the map entry, for sets
		m := arg(0)
		return SVal{t: m.t, addr: App(SRef, "mapcell", m.v[0], num(arg(1)))}
	case "mapof":
		m := arg(0)
		v := Val{e.x.mapDom(e.st, m.t, m.v[0])}
		v = append(v, e.x.mapVals(e.st, m.t, m.v[0])...)
		return SVal{v: v, t: m.t, addr: App(SRef, "mapall", m.v[0])}
	case "mapval": // mapval(dom, val...)
		var v Val
		for i := range n.Args {
			v = append(v, arg(i).v...)
		}
		return SVal{v: v}
	case "sto":
		need(3)
		a := arg(0).v[0]
		_, vs, _ := splitArr(a.sort)
		val := arg(2).v[0]
		if val.sort != vs && val.isNum() {
			val = BigNum(vs, val.num)
		}
		return ghost(Sto(a, arg(1).v[0], val))
	case "card":
		return ghost(card(arg(0).v[0]))
	case "emptyset":
		return ghost(App(domSort, "constarr", tFalse))
	case "view": // view(s): the elements of a slice as an array; view(s, f): of field f
		s := arg(0)
		v := boundVar(SInt, "v")
		el := s.t.Underlying().(*types.Slice).Elem()
		e2 := *e
		e2.st = e.st.clone()
		r := e2.at(Elt(s.v[0], Add(s.v[1], v)), el)
		if len(r.v) != 1 {
			serr("view of slice with %d components", len(r.v))
		}
		return ghost(Lam(v, r.v[0]))
	case "toF":
		return ghost(toF(num(arg(0))))
	case "inv":
		return ghost(Inv(num(arg(0))))
	case "fresh":
		v := arg(0)
		r := v.v[0]
		if v.t != nil && types.IsInterface(v.t) {
			r = v.v[1]
		}
		return ghost(e.freshTerm(r))
	case "rage":
		return ghost(rageT(arg(0).v[0]))
	case "u8":
		return ghost(U8(num(arg(0))))
	case "be16":
		t := num(arg(0))
		return ghost(Cat(U8(IDiv(t, big.NewInt(256))), U8(IMod(t, big.NewInt(256)))))
	case "be16val":
		b := e.content(arg(0))
		return ghost(Add(scale(At(b, tZero), big.NewInt(256)), At(b, tOne)))
	case "cat":
		var ps []*Term
		for i := range n.Args {
			ps = append(ps, e.content(arg(i)))
		}
		return ghost(Cat(ps...))
	case "sub":
		need(3)
		return ghost(SubB(e.content(arg(0)), num(arg(1)), num(arg(2))))
	case "zeros":
		return ghost(Zeros(num(arg(0))))
	case "ghost": // ghost("name", ref, "Sort"): ghost field of an object
		key := "$g_" + strings.Trim(n.Args[0].(*ast.BasicLit).Value, "\"")
		srt := SInt
		if len(n.Args) > 2 {
			srt = parseSort(strings.Trim(n.Args[2].(*ast.BasicLit).Value, "\""))
		} else if s, ok := e.x.eng.ghostSorts[key]; ok {
			srt = s
		}
		r := arg(1)
		ref := r.v[0]
		if r.t != nil && types.IsInterface(r.t) {
			ref = r.v[1]
		}
		h := e.st.heap(key, ArrS(SRef, srt))
		return SVal{v: Val{Sel(h, ref)}, addr: App(SRef, "ghost:"+key, ref)}
	case "base": // the object an interior pointer points into
		return SVal{v: Val{baseObj(arg(0).v[0])}}
	case "typeis": // typeis(iface, "pkg.Type")
		v := arg(0)
		t := e.x.eng.lookupType(strings.Trim(n.Args[1].(*ast.BasicLit).Value, "\""))
		return ghost(Eq(v.v[0], typeID(t)))
	case "unbox":
		v := arg(0)
		t := e.x.eng.lookupType(strings.Trim(n.Args[1].(*ast.BasicLit).Value, "\""))
		return SVal{v: e.x.unboxIface(t, v.v[1]), t: t}
	case "box":
		v := arg(0)
		return SVal{v: e.x.makeIface(v.t, v.v)}
	case "as": // as("type", term...): view a reference as a typed value
		t := e.x.eng.lookupType(strings.Trim(n.Args[0].(*ast.BasicLit).Value, "\""))
		var v Val
		for i := 1; i < len(n.Args); i++ {
			v = append(v, arg(i).v...)
		}
		if len(v) != len(layoutOf(t)) {
			serr("as: %d terms for %s", len(v), t)
		}
		return SVal{v: v, t: t}
	case "appended", "grown": // appended(r, s, X): r is s as it was on entry followed by X
		need(3)
		old := e.atOld()
		sv := old.eval(n.Args[1])
		w := e.content(arg(2))
		moved, inPlace, content := e.appendForms(arg(0), sv, w, old.st, name == "grown")
		return ghost(And(content, Or(moved, inPlace)))
	case "roomonly": // roomonly(s): of s's array only what lies between its length and its capacity changed
		old := e.atOld()
		sv := old.eval(n.Args[0])
		a := Sel(e.st.heap("HB", ArrS(SRef, SBytes)), sv.v[0])
		b := Sel(old.st.heap("HB", ArrS(SRef, SBytes)), sv.v[0])
		end, cp := Add(sv.v[1], sv.v[2]), Add(sv.v[1], sv.v[3])
		return ghost(And(Eq(Blen(a), Blen(b)), Eq(SubB(a, tZero, end), SubB(b, tZero, end)), Eq(SubB(a, cp, Sub(Blen(b), cp)), SubB(b, cp, Sub(Blen(b), cp)))))
	case "ref":
		v := arg(0)
		if v.t != nil && types.IsInterface(v.t) {
			return ghost(v.v[1])
		}
		return ghost(v.v[0])
	case "comp": // comp(x, i): i-th component of a value
		k, _ := num(arg(1)).asInt()
		return ghost(arg(0).v[k])
	case "off":
		return ghost(arg(0).v[1])
	case "zero":
		t := e.x.eng.lookupType(strings.Trim(n.Args[0].(*ast.BasicLit).Value, "\""))
		return SVal{v: zeroVal(t), t: t}
	case "glob": // glob("pkg/path.Name"): a package variable
		nm := strings.Trim(n.Args[0].(*ast.BasicLit).Value, "\"")
		i := strings.LastIndex(nm, ".")
		for _, p := range e.x.eng.prog.AllPackages() {
			if p.Pkg.Path() == nm[:i] {
				if g, ok := p.Members[nm[i+1:]].(*ssa.Global); ok {
					return e.at(Glob(nm), g.Type().Underlying().(*types.Pointer).Elem())
				}
			}
		}
		serr("no package variable %s", nm)
	case "closed":
		return ghost(Sel(e.st.heap("H_chan.closed", ArrS(SRef, SBool)), arg(0).v[0]))
	case "chancell":
		c := arg(0).v[0]
		return SVal{v: Val{Sel(e.st.heap("H_chan.closed", ArrS(SRef, SBool)), c)}, addr: App(SRef, "ghost:H_chan.closed", c)}
	case "sel":
		return ghost(Sel(arg(0).v[0], arg(1).v[0]))
	}
	if m, ok := e.x.eng.macros[name]; ok {
		var as []SVal
		for i := range n.Args {
			as = append(as, arg(i))
		}
		return e.expand(m, as)
	}
	if f, ok := e.x.eng.funs[name]; ok {
		var as []*Term
		for i := range n.Args {
			v := arg(i)
			if len(v.v) != 1 {
				serr("%s: argument %d is not a single term", name, i)
			}
			t := v.v[0]
			if i < len(f.args) && t.sort != f.args[i] && t.isNum() && isNumSort(f.args[i]) {
				t = BigNum(f.args[i], t.num)
			}
			if i >= len(f.args) || t.sort != f.args[i] {
				serr("%s: argument %d has sort %s", name, i, t.sort)
			}
			as = append(as, t)
		}
		if len(as) != len(f.args) {
			serr("%s takes %d arguments", name, len(f.args))
		}
		return ghost(Fn(f.ret, name, as...))
	}
	serr("unknown function %s", name)
	return SVal{}
}

func boundName(x ast.Expr) (string, Sort) {
	switch n := x.(type) {
	case *ast.Ident:
		return n.Name, SInt
	case *ast.CallExpr: // F(x)
		return n.Args[0].(*ast.Ident).Name, parseSort(n.Fun.(*ast.Ident).Name)
	}
	serr("bound variable %s", exprStr(x))
	return "", ""
}

func rageT(r *Term) *Term {
	r = refRoot(r)
	if r.is("obj") {
		return r.args[0]
	}
	if r.is("nil") {
		return I(-2000000000)
	}
	if isGlob(r) || isFunc(r) {
		return I(-1000000000)
	}
	return App(SInt, "rage", r)
}

// freshTerm: allocated after the mark of the environment.
func (e *SpecEnv) freshTerm(r *Term) *Term {
	if minEpochOf(r) > e.mark {
		return tTrue
	}
	return Lt(I(e.mark), rageT(r))
}

// ---------- parsing ----------

// splitTop splits s at the separator outside brackets and strings.
func splitTop(s, sep string) []string {
	var out []string
	depth := 0
	last := 0
	inStr := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			inStr = !inStr
		}
		if inStr {
			continue
		}
		switch c {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], sep) {
			out = append(out, s[last:i])
			last = i + len(sep)
			i = last - 1
		}
	}
	return append(out, s[last:])
}

// arrows rewrites a ==> b to implies(a, b) at every bracket level.
func arrows(s string) string {
	if !strings.Contains(s, "==>") {
		return s
	}
	// innermost first: handle each parenthesised group and comma separated argument
	var b strings.Builder
	i := 0
	inStr := false
	for i < len(s) {
		c := s[i]
		if c == '"' {
			inStr = !inStr
		}
		if !inStr && (c == '(' || c == '[') {
			cl := matching(s, i)
			inner := s[i+1 : cl]
			parts := splitTop(inner, ",")
			for j := range parts {
				parts[j] = arrows(parts[j])
			}
			b.WriteByte(c)
			b.WriteString(strings.Join(parts, ","))
			b.WriteByte(s[cl])
			i = cl + 1
			continue
		}
		b.WriteByte(c)
		i++
	}
	t := b.String()
	p := splitTop(t, "==>")
	if len(p) == 1 {
		return t
	}
	r := p[len(p)-1]
	for j := len(p) - 2; j >= 0; j-- {
		r = "implies(" + p[j] + ", " + r + ")"
	}
	return r
}

func matching(s string, i int) int {
	depth := 0
	inStr := false
	for j := i; j < len(s); j++ {
		c := s[j]
		if c == '"' {
			inStr = !inStr
		}
		if inStr {
			continue
		}
		switch c {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
			if depth == 0 {
				return j
			}
		}
	}
	panic(specErr{"unbalanced brackets: " + s})
}

func parseExpr(s string) ast.Expr {
	x, err := parser.ParseExpr(arrows(strings.TrimSpace(s)))
	if err != nil {
		serr("%s: %v", s, err)
	}
	return x
}

func parseTags(s string) (tags []string, rest string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		for _, t := range strings.FieldsFunc(s[1:i], func(r rune) bool { return r == ',' || r == ' ' }) {
			tags = append(tags, t)
		}
		return tags, strings.TrimSpace(s[i+1:])
	}
	return nil, s
}

// loadSpecs reads all contract files.
func (e *Engine) loadSpecs(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := e.loadSpec(f); err != nil {
			return err
		}
	}
	return nil
}

func (e *Engine) loadSpec(file string) (err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	lineNo := 0
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s:%d: %s", file, lineNo, se.msg)
				return
			}
			panic(r)
		}
	}()
	// join continuation lines (indented deeper than 2 levels start with "|" or previous ends with "\")
	raw := strings.Split(string(data), "\n")
	type line struct {
		no   int
		text string
	}
	var lines []line
	for i := 0; i < len(raw); i++ {
		t := raw[i]
		if j := strings.Index(t, "#"); j >= 0 && !strings.Contains(t[:j], "\"") {
			t = t[:j]
		}
		t = strings.TrimRight(t, " \t")
		if strings.TrimSpace(t) == "" {
			continue
		}
		no := i + 1
		for strings.HasSuffix(t, "\\") && i+1 < len(raw) {
			i++
			n := raw[i]
			if j := strings.Index(n, "#"); j >= 0 && !strings.Contains(n[:j], "\"") {
				n = n[:j]
			}
			t = strings.TrimSuffix(t, "\\") + " " + strings.TrimSpace(n)
			t = strings.TrimRight(t, " \t")
		}
		lines = append(lines, line{no, t})
	}
	var con *Contract
	var cs *Case
	extern := false
	var defaultProps, defaultSafety []string
	for _, ln := range lines {
		lineNo = ln.no
		t := strings.TrimSpace(ln.text)
		word := t
		rest := ""
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			word, rest = t[:i], strings.TrimSpace(t[i+1:])
		}
		switch word {
		case "props":
			defaultProps = strings.Fields(rest)
			defaultSafety = nil
			con = nil
		case "safety":
			if con != nil {
				con.Safety = strings.Fields(rest)
			} else {
				defaultSafety = strings.Fields(rest)
			}
		case "func", "extern":
			extern = word == "extern"
			i := strings.Index(rest, "(")
			j := matching(rest, i)
			con = &Contract{Name: strings.TrimSpace(rest[:i]), File: filepath.Base(file), Extern: extern, Props: defaultProps, Safety: defaultSafety}
			con.Params = nameList(rest[i+1 : j])
			r := strings.TrimSpace(rest[j+1:])
			if strings.HasPrefix(r, "(") {
				k := matching(r, 0)
				con.Results = nameList(r[1:k])
				r = strings.TrimSpace(r[k+1:])
			}
			con.Note = r
			if e.contracts[con.Name] != nil {
				serr("second contract for %s", con.Name)
			}
			e.contracts[con.Name] = con
			e.conOrder = append(e.conOrder, con.Name)
			cs = nil
		case "assume": // about the environment, in every function
			e.globalAssumes = append(e.globalAssumes, &Clause{kind: "assume", expr: parseExpr(rest), src: rest})
		case "default":
			con.Props = strings.Fields(rest)
		case "chain":
			con.Chain = true
		case "budget":
			con.Budget, _ = strconv.Atoi(rest)
		case "timeout":
			con.Timeout, _ = strconv.Atoi(rest)
		case "case":
			cs = &Case{cond: parseExpr(rest), src: rest}
			con.Cases = append(con.Cases, cs)
		case "always":
			cs = nil
		case "requires", "ensures", "sets", "point", "returns", "fresh", "modifies", "assumes", "maypanic", "model":
			tags, body := parseTags(rest)
			c := &Clause{kind: word, tags: tags, src: body}
			if word == "ensures" {
				c.insts, con.Insts = con.Insts, nil
				c.chain, con.Chain = con.Chain, false
				if c.chain && len(tags) > 0 {
					serr("a chained clause has the default properties")
				}
			}
			if word == "assumes" {
				c.kind, c.assumed = "requires", true
			}
			switch word {
			case "sets", "point":
				p := splitTop(body, ":=")
				if len(p) != 2 {
					serr("sets needs :=")
				}
				c.lhs, c.expr = parseExpr(p[0]), parseExpr(p[1])
			case "returns":
				p := splitTop(body, ":=")
				if len(p) != 2 {
					serr("returns needs :=")
				}
				c.name, c.expr = strings.TrimSpace(p[0]), parseExpr(p[1])
			case "fresh":
				for _, nm := range strings.Fields(body) {
					d := *c
					d.name = nm
					d.src = nm
					addClause(con, cs, &d)
				}
				continue
			case "modifies":
				for _, it := range splitTop(body, ",") {
					d := *c
					d.src = strings.TrimSpace(it)
					d.expr = parseExpr(it)
					addClause(con, cs, &d)
				}
				continue
			default:
				c.expr = parseExpr(body)
			}
			addClause(con, cs, c)
		case "inv":
			// inv name (a: T, b: T) expr
			sp := &InvSpec{}
			i := strings.IndexAny(rest, " (")
			sp.name = rest[:i]
			rest = strings.TrimSpace(rest[i:])
			if strings.HasPrefix(rest, "(") && strings.Contains(rest[:matching(rest, 0)+1], ":") {
				j := matching(rest, 0)
				for _, m := range splitTop(rest[1:j], ",") {
					q := strings.SplitN(m, ":", 2)
					sp.metas = append(sp.metas, metaVar{strings.TrimSpace(q[0]), strings.TrimSpace(q[1])})
				}
				rest = strings.TrimSpace(rest[j+1:])
			}
			sp.expr = rest
			sp.parsed = parseExpr(rest)
			con.Invs = append(con.Invs, sp)
		case "instance":
			// instance [forall(.., ] lemma(args) [)]: instances of a proved lemma, known at every return
			ex := parseExpr(rest)
			in := ex
			for {
				c, ok := in.(*ast.CallExpr)
				if !ok {
					serr("instance %s", rest)
				}
				id, ok := c.Fun.(*ast.Ident)
				if !ok {
					serr("instance %s", rest)
				}
				if id.Name == "forall" {
					in = c.Args[len(c.Args)-1]
					continue
				}
				con.Uses = append(con.Uses, id.Name)
				break
			}
			con.Insts = append(con.Insts, lemInst{rest, ex})
		case "use":
			con.Uses = append(con.Uses, strings.Fields(rest)...)
		case "define":
			// define name(a, b) = expr
			i := strings.Index(rest, "=")
			hd, body := strings.TrimSpace(rest[:i]), rest[i+1:]
			m := &Macro{src: body}
			if j := strings.Index(hd, "("); j >= 0 {
				m.name = strings.TrimSpace(hd[:j])
				m.params = nameList(hd[j+1 : strings.LastIndex(hd, ")")])
			} else {
				m.name = hd
			}
			m.body = parseExpr(body)
			if e.macros[m.name] != nil {
				panic(specErr{"define " + m.name + " appears twice"})
			}
			e.macros[m.name] = m
		case "protected": // protected pkg.Type ghost props... : fields
			p := splitTop(rest, ":")
			f := strings.Fields(p[0])
			pr := &Protected{ghost: f[1], props: f[2:], fields: map[string]bool{}}
			for _, n := range strings.Fields(p[1]) {
				pr.fields[n] = true
			}
			e.protected[f[0]] = pr
		case "ghostfield":
			f := strings.Fields(rest)
			e.ghostSorts["$g_"+f[0]] = parseSort(f[1])
		case "appends", "grows":
			// appends r := s, X: one append; grows: in any number of steps
			tags, body := parseTags(rest)
			p := splitTop(body, ":=")
			q := splitTop(p[1], ",")
			if len(q) != 2 {
				serr("appends r := s, X")
			}
			addClause(con, cs, &Clause{kind: "appends", name: strings.TrimSpace(p[0]), lhs: parseExpr(q[0]), expr: parseExpr(q[1]), tags: tags, src: body, loose: word == "grows"})
		case "fun":
			// fun name(F, Int) Bytes injective len 32 range 0 255
			i := strings.Index(rest, "(")
			j := matching(rest, i)
			f := &FunDecl{name: rest[:i]}
			for _, a := range splitTop(rest[i+1:j], ",") {
				if strings.TrimSpace(a) != "" {
					f.args = append(f.args, parseSort(a))
				}
			}
			fl := strings.Fields(rest[j+1:])
			f.ret = parseSort(fl[0])
			for k := 1; k < len(fl); k++ {
				switch fl[k] {
				case "injective":
					injective[f.name] = true
				case "len":
					fixedLen[f.name], _ = strconv.ParseInt(fl[k+1], 10, 64)
					k++
				case "range":
					a, _ := new(big.Int).SetString(fl[k+1], 0)
					b, _ := new(big.Int).SetString(fl[k+2], 0)
					appRange[f.name] = [2]*big.Int{a, b}
					k += 2
				}
			}
			e.funs[f.name] = f
		case "rec":
			e.parseRec(rest)
		case "lemma", "axiom":
			e.parseLemma(word, rest)
		default:
			serr("unknown line %q", t)
		}
	}
	return nil
}

func addClause(con *Contract, cs *Case, c *Clause) {
	if cs != nil {
		cs.clauses = append(cs.clauses, c)
	} else {
		con.Common = append(con.Common, c)
	}
}

func nameList(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func (e *Engine) typedParams(s string) (names []string, vars []*Term) {
	for _, p := range splitTop(s, ",") {
		if strings.TrimSpace(p) == "" {
			continue
		}
		q := strings.SplitN(p, ":", 2)
		n := strings.TrimSpace(q[0])
		names = append(names, n)
		vars = append(vars, boundVar(parseSort(q[1]), n))
	}
	return
}

// rec name(v: [Int]F, n: Int): F = expr
func (e *Engine) parseRec(s string) {
	i := strings.Index(s, "(")
	j := matching(s, i)
	name := strings.TrimSpace(s[:i])
	names, vars := e.typedParams(s[i+1 : j])
	r := strings.TrimSpace(s[j+1:])
	k := strings.Index(r, "=")
	ret := parseSort(strings.TrimPrefix(strings.TrimSpace(r[:k]), ":"))
	f := &FunDecl{name: name, ret: ret}
	for _, v := range vars {
		f.args = append(f.args, v.sort)
	}
	e.funs[name] = f
	env := e.ghostEnv()
	for q := range names {
		env.names[names[q]] = ghost(vars[q])
	}
	body := env.eval(parseExpr(r[k+1:])).v[0]
	if body.sort != ret && body.isNum() {
		body = BigNum(ret, body.num)
	}
	rf := &RecFn{name: name, params: vars, body: body}
	recFns[name] = rf
	rf.findFrame()
}

func (e *Engine) ghostEnv() *SpecEnv {
	x := &Exec{eng: e, seen: map[string]int{}, con: &Contract{Name: "ghost"}, muted: 1, budget: 1000}
	st := newState()
	return x.specEnv(st, st)
}

// lemma name(v: [Int]F, n: Int) [tags] [induct n] [trigger t1; t2 | t3] hyp ==> concl
func (e *Engine) parseLemma(kind, s string) {
	i := strings.Index(s, "(")
	j := matching(s, i)
	l := &Lemma{name: strings.TrimSpace(s[:i]), axiom: kind == "axiom", source: s}
	names, vars := e.typedParams(s[i+1 : j])
	l.params = vars
	env := e.ghostEnv()
	for q := range names {
		env.names[names[q]] = ghost(vars[q])
	}
	r := strings.TrimSpace(s[j+1:])
	l.indIdx = -1
	for strings.HasPrefix(r, "{") {
		k := matching(r, 0)
		opt := strings.TrimSpace(r[1:k])
		r = strings.TrimSpace(r[k+1:])
		w := opt
		rest := ""
		if q := strings.IndexAny(opt, " "); q >= 0 {
			w, rest = opt[:q], strings.TrimSpace(opt[q+1:])
		}
		switch w {
		case "props":
			l.props = strings.Fields(rest)
		case "induct":
			for q, n := range names {
				if n == rest {
					l.indIdx = q
				}
			}
			if l.indIdx < 0 {
				serr("induct %s", rest)
			}
		case "auto":
			l.autouse = true
		case "by":
			l.induct = rest // lemmas to use
		case "with":
			// explicit instances of earlier lemmas: with nzd(a, b); nzd(c, d)
			for _, in := range splitTop(rest, ";") {
				in = strings.TrimSpace(in)
				l.with = append(l.with, env.lemmaInstance(lemInst{in, parseExpr(in)}))
			}
		case "trigger":
			for _, alt := range splitTop(rest, "|") {
				var ts []*Term
				for _, t := range splitTop(alt, ";") {
					ts = append(ts, env.eval(parseExpr(t)).v[0])
				}
				l.trig = append(l.trig, ts)
			}
		default:
			serr("lemma option %s", w)
		}
	}
	p := splitTop(arrowsKeep(r), "==>")
	l.hyp = tTrue
	if len(p) == 2 {
		l.hyp = env.boolExpr(parseExpr(p[0]), p[0])
	} else if len(p) > 2 {
		serr("nested implication in lemma")
	}
	l.concl = env.boolExpr(parseExpr(p[len(p)-1]), r)
	lemmas[l.name] = l
	lemmaOrder = append(lemmaOrder, l.name)
}

func arrowsKeep(s string) string { return s }

// lemInst is an explicit instance of a lemma in a contract.
type lemInst struct {
	src  string
	expr ast.Expr
}

func (env *SpecEnv) lemmaInstance(in lemInst) *Term {
	env.lemcalls = true
	defer func() { env.lemcalls = false }()
	return env.boolExpr(in.expr, in.src)
}

// lemmaCall is the statement of a lemma for given arguments.
func (env *SpecEnv) lemmaCall(name string, args []ast.Expr) *Term {
	k := lemmas[name]
	if len(k.params) != len(args) {
		serr("lemma %s takes %d arguments", name, len(k.params))
	}
	m := map[*Term]*Term{}
	for z, a := range args {
		v := env.eval(a).v[0]
		if v.sort != k.params[z].sort && v.isNum() {
			v = BigNum(k.params[z].sort, v.num)
		}
		m[k.params[z]] = v
	}
	return Implies(subst(k.hyp, m), subst(k.concl, m))
}

// findFrame: every call passes the same arguments with the bound n replaced by n-1, and
// arrays are read at n-1 only; the recursion ends at n <= 0.
func (rf *RecFn) findFrame() {
	for bi, n := range rf.params {
		if n.sort != SInt {
			continue
		}
		if rf.body.op != OIte || rf.body.args[0] != Le(n, tZero) {
			continue
		}
		ok := true
		inBase := false
		walkTerms(rf.body.args[1], map[*Term]bool{}, func(t *Term) {
			for _, p := range rf.params {
				if t == p {
					inBase = true
				}
			}
		})
		ok = !inBase
		pos := map[*Term]bool{}
		for _, p := range rf.params {
			if ks, _, isArr := splitArr(p.sort); isArr && ks == SInt {
				pos[p] = true
			}
		}
		walkTerms(rf.body.args[2], map[*Term]bool{}, func(t *Term) {
			if t.op == OSel && pos[t.args[0]] {
				if t.args[1] != AddI(n, -1) {
					ok = false
				}
				return
			}
			if t.is(rf.name) {
				for j, a := range t.args {
					w := rf.params[j]
					if j == bi {
						w = AddI(n, -1)
					}
					if a != w {
						ok = false
					}
				}
				return
			}
			for _, a := range t.args {
				if pos[a] {
					ok = false
				}
			}
		})
		if ok {
			rf.frame, rf.boundIdx = true, bi
		}
		return
	}
}
