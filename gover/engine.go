package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog          *ssa.Program
	pkgs          []*ssa.Package
	ppkgs         []*packages.Package
	contracts     map[string]*Contract
	conOrder      []string
	macros        map[string]*Macro
	funs          map[string]*FunDecl
	funcByName    map[string]*ssa.Function
	closures      map[*Term]*closure
	iters         map[*Term]*iter
	stableIter    map[string]bool
	noVariant     map[string]bool
	loopMemo      map[*ssa.Function]*fnLoops
	inlineCon     *Contract
	light         bool // trying invariant candidates with short time limits
	loopNames     map[*ssa.Function]map[string]bool
	verbose       bool
	ghostSorts    map[string]Sort
	protected     map[string]*Protected
	typeByName    map[string]types.Type
	repoDir       string
	initNotes     []string
	globalAssumes []*Clause
	byKey         map[string]*ssa.Function
}

func newEngine() *Engine {
	return &Engine{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, funs: map[string]*FunDecl{}, funcByName: map[string]*ssa.Function{}, closures: map[*Term]*closure{}, iters: map[*Term]*iter{}, stableIter: map[string]bool{}, noVariant: map[string]bool{}, loopMemo: map[*ssa.Function]*fnLoops{}, ghostSorts: map[string]Sort{}, protected: map[string]*Protected{}, typeByName: map[string]types.Type{}, byKey: map[string]*ssa.Function{}}
}

func (e *Engine) load(dir string) error {
	e.repoDir = dir
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypesSizes, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, "./pkg/...")
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	e.ppkgs = pkgs
	prog, spk := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	e.prog = prog
	for _, p := range spk {
		if p != nil {
			p.Build()
			e.pkgs = append(e.pkgs, p)
		}
	}
	findAliases(e.pkgs)
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" {
					e.byKey[fnKey(m)] = m
					e.keyAnon(m)
				}
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if f := prog.FuncValue(nt.Method(i)); f != nil {
						e.byKey[fnKey(f)] = f
						e.keyAnon(f)
					}
				}
			}
		}
	}
	return nil
}

// promoted finds the method package.Type.Method that *Type has through an embedded field.
func (e *Engine) promoted(name string) *ssa.Function {
	f := strings.Split(name, ".")
	if len(f) != 3 {
		return nil
	}
	for _, p := range e.pkgs {
		if p.Pkg.Name() != f[0] {
			continue
		}
		m, ok := p.Members[f[1]].(*ssa.Type)
		if !ok {
			continue
		}
		if sel := e.prog.MethodSets.MethodSet(types.NewPointer(m.Type())).Lookup(p.Pkg, f[2]); sel != nil {
			return e.prog.MethodValue(sel)
		}
	}
	return nil
}

func (e *Engine) keyAnon(f *ssa.Function) {
	for _, a := range f.AnonFuncs {
		e.byKey[fnKey(a)] = a
		e.keyAnon(a)
	}
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule)
		}
		if f.Synthetic != "" {
			return true
		}
	}
	return false
}

func (e *Engine) pkgOf(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkgs[0].Pkg
}

func (e *Engine) pkgByName(n string) *ssa.Package {
	for _, p := range e.pkgs {
		if p.Pkg.Name() == n {
			return p
		}
	}
	return nil
}

func (e *Engine) globalByName(pkg, name string) *ssa.Global {
	if p := e.pkgByName(pkg); p != nil {
		if g, ok := p.Members[name].(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

func (e *Engine) constByName(pkg, name string) *ssa.NamedConst {
	if p := e.pkgByName(pkg); p != nil {
		if g, ok := p.Members[name].(*ssa.NamedConst); ok {
			return g
		}
	}
	return nil
}

// lookupType resolves "pkg.Type", "*pkg.Type", "[]pkg.Type".
func (e *Engine) lookupType(s string) types.Type {
	if t, ok := e.typeByName[s]; ok {
		return t
	}
	var t types.Type
	switch {
	case strings.HasPrefix(s, "*"):
		t = types.NewPointer(e.lookupType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		t = types.NewSlice(e.lookupType(s[2:]))
	case strings.Contains(s, "."):
		i := strings.Index(s, ".")
		var walk func(p *types.Package, seen map[*types.Package]bool)
		walk = func(p *types.Package, seen map[*types.Package]bool) {
			if seen[p] || t != nil {
				return
			}
			seen[p] = true
			if p.Name() == s[:i] {
				if o := p.Scope().Lookup(s[i+1:]); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						t = tn.Type()
						return
					}
				}
			}
			for _, q := range p.Imports() {
				walk(q, seen)
			}
		}
		seen := map[*types.Package]bool{}
		for _, p := range e.pkgs {
			walk(p.Pkg, seen)
		}
	default:
		for _, b := range types.Typ {
			if b.Name() == s {
				t = b
			}
		}
	}
	if t == nil {
		serr("type %s not found", s)
	}
	e.typeByName[s] = t
	return t
}

// ---------- verifying one function ----------

type FnReport struct {
	Name    string
	Obls    []*Obl
	Unsup   string
	Dropped []string
	Inlined []string
	Callees []string
	Paths   int
	Rounds  int
	Secs    float64
}

func (e *Engine) allProps(c *Contract) []string {
	set := map[string]bool{}
	for _, p := range c.Props {
		set[p] = true
	}
	add := func(cl []*Clause) {
		for _, x := range cl {
			for _, t := range x.tags {
				set[t] = true
			}
		}
	}
	add(c.Common)
	for _, cs := range c.Cases {
		add(cs.clauses)
	}
	var out []string
	for p := range set {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) verify(con *Contract, timeout time.Duration) (rep *FnReport) {
	t0 := time.Now()
	rep = &FnReport{Name: con.Name}
	defer func() { rep.Secs = time.Since(t0).Seconds() }()
	fn := e.byKey[con.Name]
	if fn == nil {
		fn = e.promoted(con.Name)
	}
	if fn == nil || len(fn.Blocks) == 0 {
		rep.Unsup = "function not found"
		return
	}
	// light pass: invariant candidates are tried with short time limits; if something then
	// fails, they are all tried again thoroughly
	if drop := e.settle(con, fn, timeout, rep, true); rep.Unsup == "" {
		bad := false
		for _, o := range rep.Obls {
			if o.status != "proved" && !strings.HasPrefix(o.name, "inv:") {
				bad = true
			}
		}
		declared := false
		for id := range drop {
			if !strings.HasPrefix(id, "oldmem") {
				declared = true
			}
		}
		if !bad || !declared {
			e.finishReport(rep, drop)
			return
		}
	}
	if rep.Unsup != "" && rep.Unsup != unsettled {
		return
	}
	rep.Unsup, rep.Obls = "", nil
	drop := e.settle(con, fn, timeout, rep, false)
	if rep.Unsup == "" {
		e.finishReport(rep, drop)
	}
	return
}

const unsettled = "the invariant candidates do not settle"

// settle drops invariant candidates that can not be proved until the others can, and then
// discharges all other obligations.
func (e *Engine) settle(con *Contract, fn *ssa.Function, timeout time.Duration, rep *FnReport, light bool) map[string]bool {
	drop := map[string]bool{}
	for round := 0; ; round++ {
		rep.Rounds++
		e.light = light
		x := e.generate(con, fn, drop, rep)
		if x == nil {
			return drop
		}
		rep.Obls = x.obls
		to := timeout
		if con.Timeout > 0 {
			to = time.Duration(con.Timeout) * time.Second
		}
		var invs, others []*Obl
		for _, o := range x.obls {
			if strings.HasPrefix(o.name, "inv:") {
				invs = append(invs, o)
			} else {
				others = append(others, o)
			}
		}
		if light {
			dischargeLight(invs, to, 8)
		} else {
			dischargeAll(invs, to, 8)
		}
		changed := false
		for _, o := range x.obls {
			if o.status != "proved" && strings.HasPrefix(o.name, "inv:") {
				id := strings.TrimSuffix(strings.TrimSuffix(strings.TrimPrefix(o.name, "inv:"), ":step"), ":init")
				if e.verbose {
					fmt.Printf("   dropping %s: %s %s\n", o.name, o.where, o.detail)
					for _, h := range o.hyps {
						fmt.Printf("        | %.500s\n", h)
					}
					fmt.Printf("        |- %.800s\n", o.goal)
				}
				if !drop[id] {
					drop[id] = true
					changed = true
				}
			}
		}
		if changed && overtime() {
			rep.Unsup = outOfTime
			return drop
		}
		if changed && round >= 12 {
			rep.Unsup = unsettled
			return drop
		}
		if !changed {
			dischargeAll(others, to, 8)
			rep.Obls = append(rep.Obls, e.returnsCover(x)...)
			break
		}
	}
	return drop
}

func (e *Engine) finishReport(rep *FnReport, drop map[string]bool) {
	// invariant candidates that were dropped are not failures
	var keep []*Obl
	for _, o := range rep.Obls {
		if o.status != "proved" && strings.HasPrefix(o.name, "inv:") {
			rep.Dropped = append(rep.Dropped, o.name)
			continue
		}
		keep = append(keep, o)
	}
	for id := range drop {
		rep.Dropped = append(rep.Dropped, id)
	}
	sort.Strings(rep.Dropped)
	rep.Obls = keep
}

// returnsCover checks that the hypotheses of at least one path to a return do not contradict
// each other; with GOVER_VAC it lists those that do.
func (e *Engine) returnsCover(x *Exec) []*Obl {
	if len(x.returns) == 0 {
		return nil
	}
	all := os.Getenv("GOVER_VAC") != ""
	c := &Obl{fn: x.con.Name, name: "cover:a return is reachable", cover: true, status: "failed", detail: "the hypotheses of all paths are contradictory"}
	for _, o := range x.returns {
		o.Prepare(fullFuel)
		if o.status == "" {
			o.quick()
		}
		c.secs += o.secs
		if o.status != "proved" {
			c.status, c.backend, c.detail = "proved", "z3-new", ""
			if !all {
				break
			}
		} else if all {
			fmt.Printf("   unreachable return of %s: %s\n", x.con.Name, o.where)
		}
	}
	return []*Obl{c}
}

func (e *Engine) generate(con *Contract, fn *ssa.Function, drop map[string]bool, rep *FnReport) (x *Exec) {
	x = &Exec{eng: e, con: con, top: fn, seen: map[string]int{}, dropInv: drop, usedInv: map[string]bool{}, usedCon: map[string]bool{}, inlined: map[string]bool{}, budget: 4000}
	if con.Budget > 0 {
		x.budget = con.Budget
	}
	objInits = map[int64]*objInit{}
	for _, n := range lemmaOrder {
		l := lemmas[n]
		if l.autouse {
			x.lemUse = append(x.lemUse, l)
		}
	}
	for _, n := range con.Uses {
		if l := lemmas[n]; l != nil {
			x.lemUse = append(x.lemUse, l)
		} else {
			rep.Unsup = "lemma " + n + " not found"
			return nil
		}
	}
	defer func() {
		rep.Inlined = sortedKeys(x0(x).inlined)
		rep.Callees = sortedKeys(x0(x).usedCon)
		rep.Paths = x0(x).paths
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				rep.Unsup = u.msg
			case specErr:
				rep.Unsup = "contract: " + u.msg
			default:
				panic(r)
			}
			rep.Obls = nil
			x = nil
		}
	}()
	st := newState()
	x.argVals = map[string]SVal{}
	var args []Val
	for i, p := range fn.Params {
		v, fs := freshVal(p.Type(), "p_"+p.Name(), 0)
		st.assume(fs...)
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isRawByte(s.Elem()) {
			byteSliceFacts(st, v)
		}
		args = append(args, v)
		if i < len(con.Params) {
			x.argVals[con.Params[i]] = SVal{v: v, t: p.Type()}
		}
	}
	var binds []Val
	for _, p := range fn.FreeVars {
		v, fs := freshVal(p.Type(), "fv_"+p.Name(), 0)
		st.assume(fs...)
		binds = append(binds, v)
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok { // captured variables are cells
			st.assume(Not(Eq(v[0], tNil)))
			x.argVals[p.Name()] = SVal{v: x.load(st, v[0], pt.Elem()), t: pt.Elem()}
			st.assume(wfFacts(pt.Elem(), x.argVals[p.Name()].v)...)
		}
	}
	env := x.specEnv(st, st)
	env.bindParams(con, fn.Signature, args)
	for _, p := range fn.FreeVars {
		if v, ok := x.argVals[p.Name()]; ok {
			env.names[p.Name()] = v
		}
	}
	for _, c := range e.globalAssumes {
		st.assume(env.boolExpr(c.expr, c.src))
	}
	for _, c := range con.Common {
		if c.kind == "requires" {
			st.assume(env.boolExpr(c.expr, c.src))
		}
	}
	x.entry = st.clone()
	x.addCover(st, "requires satisfiable")
	if len(con.Cases) > 0 {
		var cs []*Term
		for _, c := range con.Cases {
			g := env.boolExpr(c.cond, c.src)
			cs = append(cs, g)
			s2 := st.clone()
			s2.assume(g)
			x.addCover(s2, "case "+c.src+" satisfiable")
		}
		s2 := st.clone()
		x.oblige(s2, "cases cover everything", Or(cs...), nil, "")
	}
	x.entry = st.clone()
	x.runFn(fn, st.clone(), binds, args, 0, nil, func(st *State, res Val) {
		x.exits++
		x.atReturn(st, res)
		x.end()
	})
	if x.exits == 0 && len(x.obls) <= 1 {
		unsup("no path returns")
	}
	return x
}

func x0(x *Exec) *Exec {
	if x == nil {
		return &Exec{}
	}
	return x
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) addCover(st *State, name string) {
	if x.muted > 0 {
		return
	}
	x.obls = append(x.obls, &Obl{fn: x.con.Name, name: "cover:" + name, hyps: append(append([]*Term{}, x.facts...), st.pc...), cover: true, lemma: x.lemUse})
}

func (x *Exec) clauseProps(c *Clause) []string {
	if len(c.tags) > 0 {
		return c.tags
	}
	return x.con.Props
}

// goal records an obligation about the postcondition, conjunct by conjunct.
func (x *Exec) goal(st *State, name string, g *Term, props []string) {
	if g.op == OAnd {
		for _, a := range g.args {
			s := st.clone()
			x.oblige(s, name, a, props, "")
		}
		return
	}
	s := st.clone()
	x.oblige(s, name, g, props, "")
}

func (x *Exec) atReturn(st *State, res Val) {
	con := x.con
	last := ""
	if n := len(st.pc); n > 0 {
		last = fmt.Sprintf("%.160s", st.pc[n-1])
	}
	if x.muted == 0 {
		x.returns = append(x.returns, &Obl{fn: con.Name, name: "return", where: last, hyps: append(append([]*Term{}, x.facts...), st.pc...), goal: tFalse, lemma: x.lemUse})
	}
	env := x.specEnv(st, x.entry.clone())
	for n, v := range x.argVals {
		env.names[n] = v
	}
	lo := 0
	sig := x.top.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		n := len(layoutOf(t))
		env.names[con.Results[i]] = SVal{v: res[lo : lo+n], t: t}
		lo += n
	}
	env.mark = 0
	var allowed []modPat
	check := func(st *State, cl []*Clause) {
		env := *env
		env.st = st
		old := env.atOld()
		var freshRefs, proved []*Term
		for _, c := range cl {
			props := x.clauseProps(c)
			nm := c.kind + " " + c.src
			switch c.kind {
			case "ensures":
				if len(c.insts) > 0 || c.chain {
					s := st.clone()
					if c.chain {
						// proved on the same path by obligations of their own
						for _, g := range proved {
							s.assume(g)
						}
					}
					e2 := env
					e2.st = s
					for _, in := range c.insts {
						s.assume(e2.lemmaInstance(in))
					}
					x.goal(s, nm, e2.boolExpr(c.expr, c.src), props)
				} else {
					x.goal(st, nm, env.boolExpr(c.expr, c.src), props)
				}
				if len(c.tags) == 0 {
					proved = append(proved, env.boolExpr(c.expr, c.src))
				}
			case "fresh":
				v := env.names[c.name]
				r := v.v[0]
				if types.IsInterface(v.t) {
					r = v.v[1]
				}
				g := env.freshTerm(r)
				if _, ok := v.t.Underlying().(*types.Slice); ok {
					g = Or(Eq(v.v[3], tZero), g)
				}
				x.goal(st, nm, g, props)
				for _, o := range freshRefs {
					x.goal(st, nm+" distinct", Not(Eq(o, r)), props)
				}
				freshRefs = append(freshRefs, r)
			case "returns":
				r := env.names[c.name]
				if ce, ok := c.expr.(*ast.CallExpr); ok {
					if id, ok := ce.Fun.(*ast.Ident); ok {
						switch id.Name {
						case "newbytes":
							w := old.rhs(&env, ce.Args[0], nil).v[0]
							x.goal(st, nm, Eq(env.content(r), w), props)
							x.goal(st, nm+" (new memory)", Or(Eq(r.v[3], tZero), env.freshTerm(r.v[0])), props)
							continue
						case "errnew":
							x.goal(st, nm, Not(Eq(r.v[0], tZero)), props)
							continue
						}
					}
				}
				x.goal(st, nm, env.equal(r, env.coerced(old.rhs(&env, c.expr, r.t), r.t)), props)
			case "sets":
				want := old.rhs(&env, c.expr, nil)
				loc := env.location(c.lhs)
				if loc.addr != nil && loc.addr.is("mapcell") {
					m, kk := loc.addr.args[0], loc.addr.args[1]
					d, ls, ns := mapHeaps(loc.t)
					oh := old.st.heap(d, ArrS(SRef, domSort))
					nh := st.heap(d, ArrS(SRef, domSort))
					x.goal(st, nm, Eq(Sel(nh, m), Sto(Sel(oh, m), kk, tTrue)), props)
					w := env.coerce(want, loc.t.Underlying().(*types.Map).Elem())
					for i, l := range ls {
						srt := ArrS(SRef, ArrS(SInt, l.sort))
						x.goal(st, nm, Eq(Sel(st.heap(ns[i], srt), m), Sto(Sel(old.st.heap(ns[i], srt), m), kk, w[i])), props)
					}
				} else {
					x.goal(st, nm, env.equal(loc, want), props)
				}
				allowed = append(allowed, env.modifies(c.lhs)...)
			case "point":
				want := old.rhs(&env, c.expr, nil)
				loc := env.location(c.lhs)
				w := asF(want.v[0])
				x.goal(st, nm, Eq(Fn(SF, "dl", loc.v[0]), w), props)
				x.goal(st, nm+" (valid)", Fn(SBool, "validpt", loc.v[0]), props)
				allowed = append(allowed, env.modifies(c.lhs)...)
			case "modifies":
				allowed = append(allowed, old.rhsMods(&env, c.expr)...)
			case "appends":
				x.checkAppends(st, &env, c, props)
				s := old.eval(c.lhs)
				allowed = append(allowed, modPat{"HB", ArrS(SRef, SBytes), s.v[0]})
			}
		}
	}
	if len(con.Cases) == 0 {
		check(st, con.Common)
		x.frame(st, allowed)
		return
	}
	for _, cs := range con.Cases {
		s := st.clone()
		c := s.simp(env.atOld().boolExpr(cs.cond, cs.src))
		if c == tFalse {
			continue
		}
		s.assume(c)
		allowed = nil
		check(s, append(append([]*Clause{}, con.Common...), cs.clauses...))
		x.frame(s, allowed)
	}
}

func (e *SpecEnv) coerced(v SVal, t types.Type) SVal {
	return SVal{v: e.coerce(v, t), t: t}
}

// rhsMods evaluates modifies items in the old state with results visible.
func (e *SpecEnv) rhsMods(cur *SpecEnv, x ast.Expr) []modPat {
	n := *e
	n.names = cur.names
	return n.modifies(x)
}

func (x *Exec) checkAppends(st *State, env *SpecEnv, c *Clause, props []string) {
	r := env.names[c.name]
	old := env.atOld()
	s := old.eval(c.lhs)
	w := old.rhs(env, c.expr, nil).v[0]
	nm := "appends " + c.src
	moved, inPlace, content := env.appendForms(r, s, w, old.st, c.loose)
	x.goal(st, nm, content, props)
	// decide which one syntactically, to keep the goal small
	if st.simp(moved) == tTrue || r.v[0].is("obj") {
		x.goal(st, nm+" (in a new array)", moved, props)
	} else if r.v[0] == s.v[0] {
		x.goal(st, nm+" (in place)", inPlace, props)
	} else {
		x.goal(st, nm+" (in place or in a new array)", Or(moved, inPlace), props)
	}
}

// appendForms: r is s (as it was in the old state) followed by w; either in a new array with
// the old one unchanged, or in place.
func (env *SpecEnv) appendForms(r, s SVal, w *Term, old *State, loose bool) (moved, inPlace, content *Term) {
	x := env.x
	st := env.st
	ob := x.bytesOf(old, s.v)
	oh := old.heap("HB", ArrS(SRef, SBytes))
	nh := st.heap("HB", ArrS(SRef, SBytes))
	content = Eq(x.bytesOf(st, r.v), Cat(ob, w))
	inPlace = And(Eq(r.v[0], s.v[0]), Eq(r.v[1], s.v[1]), Eq(r.v[3], s.v[3]),
		Eq(Sel(nh, s.v[0]), Splice(Sel(oh, s.v[0]), Add(s.v[1], s.v[2]), w)))
	if w == tEmpty {
		inPlace = And(Eq(r.v[0], s.v[0]), Eq(r.v[1], s.v[1]), Eq(r.v[3], s.v[3]), Eq(Sel(nh, s.v[0]), Sel(oh, s.v[0])))
	}
	moved = And(env.freshTerm(r.v[0]), Eq(Sel(nh, s.v[0]), Sel(oh, s.v[0])))
	if loose {
		// the room behind the slice may have been used before it was given up
		a, b := Sel(nh, s.v[0]), Sel(oh, s.v[0])
		end, cp := Add(s.v[1], s.v[2]), Add(s.v[1], s.v[3])
		content = And(content, Eq(Blen(a), Blen(b)), Eq(SubB(a, tZero, end), SubB(b, tZero, end)), Eq(SubB(a, cp, Sub(Blen(b), cp)), SubB(b, cp, Sub(Blen(b), cp))))
		moved = env.freshTerm(r.v[0])
		inPlace = And(Eq(r.v[0], s.v[0]), Eq(r.v[1], s.v[1]), Eq(r.v[3], s.v[3]))
	}
	return
}

// patMatches: the address a is one of those the pattern stands for.
func patMatches(p, a *Term) *Term {
	if !p.free {
		return Eq(p, a)
	}
	bv, q, c := wildcards(p, "fw")
	return Quant(OExists, bv, And(c, Eq(q, a)))
}

// entryMods: the addresses in one heap that the contract lets the function write, as far as
// they can be named when it is entered.
func (x *Exec) entryMods(key string) (out []*Term) {
	one := func(c *Clause) {
		defer func() { _ = recover() }()
		env := x.specEnv(x.entry.clone(), x.entry.clone())
		for n, v := range x.argVals {
			env.names[n] = v
		}
		var ms []modPat
		switch c.kind {
		case "modifies":
			ms = env.modifies(c.expr)
		case "sets", "point":
			ms = env.modifies(c.lhs)
		case "appends":
			ms = []modPat{{"HB", ArrS(SRef, SBytes), env.eval(c.lhs).v[0]}}
		}
		for _, m := range ms {
			if m.key == key && m.addr != nil {
				out = append(out, m.addr)
			}
		}
	}
	for _, c := range x.con.Common {
		one(c)
	}
	for _, cs := range x.con.Cases {
		for _, c := range cs.clauses {
			one(c)
		}
	}
	return
}

// frame: nothing but the listed memory and new objects changed.
func (x *Exec) frame(st *State, allowed []modPat) {
	var keys []string
	for k := range st.heaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, m := range allowed {
		if m.key == "" {
			return // anything may change
		}
	}
	for _, k := range keys {
		h := st.heaps[k]
		h0 := x.entry.clone().heap(k, h.sort)
		if h == h0 || strings.HasPrefix(k, "$vis") {
			continue
		}
		if _, _, isArr := splitArr(h.sort); !isArr {
			ok := false
			for _, m := range allowed {
				if m.key == k {
					ok = true
				}
			}
			if !ok {
				x.goal(st, "frame "+k, Eq(h, h0), x.con.Props)
			}
			continue
		}
		var pats []*Term
		all := false
		for _, m := range allowed {
			if m.key == k {
				if m.addr == nil {
					all = true
				} else {
					pats = append(pats, m.addr)
				}
			}
		}
		if all {
			continue
		}
		adr, any := chain(h, h0)
		if any {
			x.goal(st, "frame "+k, tFalse, x.con.Props)
			continue
		}
		done := map[*Term]bool{}
		for _, a := range adr {
			if done[a] {
				continue
			}
			done[a] = true
			if minEpochOf(a) > 0 {
				continue
			}
			ok := false
			for _, p := range pats {
				if covers(p, a) {
					ok = true
				}
			}
			if ok {
				continue
			}
			alts := []*Term{Lt(tZero, rageT(a)), Eq(Sel(h, a), Sel(h0, a))}
			for _, p := range pats {
				alts = append(alts, patMatches(p, a))
			}
			g := Or(alts...)
			if g.free {
				bv, q, c := wildcards(g, "fa")
				g = Quant(OForall, bv, Implies(c, q))
			}
			s := st.clone()
			x.oblige(s, "frame "+k, g, x.con.Props, "")
		}
	}
}

func contractsDir() string {
	if d := os.Getenv("GOVER_CONTRACTS"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "contracts")
}

func verifDir() string {
	if d := os.Getenv("GOVER_VERIF"); d != "" {
		return d
	}
	return "/verif"
}
