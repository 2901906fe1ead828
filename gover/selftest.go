package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"time"
)

// cmdSelftest checks the normaliser against direct evaluation: random terms are built with the
// constructors while their values under a random assignment are computed on the side; the
// normalised term must evaluate to the same value.
func cmdSelftest(args []string) {
	n := 100000
	bad := 0
	for seed := 0; seed < n && bad < 10; seed++ {
		g := &stGen{r: rand.New(rand.NewSource(int64(seed))), ints: map[*Term]int64{}, bts: map[*Term]string{}, bools: map[*Term]bool{}}
		if !g.run(seed) {
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Println("selftest ok")
}

type stGen struct {
	r     *rand.Rand
	ints  map[*Term]int64
	bts   map[*Term]string
	bools map[*Term]bool
	trace []string
}

func (g *stGen) run(seed int) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("seed", seed, "panic", e)
			ok = false
		}
	}()
	k := g.r.Intn(4)
	if k == 3 {
		return g.hyps(seed)
	}
	if k == 0 {
		t, v := g.boolT(4)
		return g.check(seed, t, v)
	}
	if k == 1 {
		t, v := g.intT(5)
		return g.check(seed, t, v)
	}
	t, v := g.bytesT(5)
	if int64(len(v)) != g.eval(Blen(t)).(int64) {
		fmt.Println("seed", seed, "length", t, Blen(t), len(v))
		return false
	}
	return g.check(seed, t, v)
}

// hyps: what the preparation of a query makes of hypotheses that hold must hold too.
func (g *stGen) hyps(seed int) bool {
	p := &prep{set: map[*Term]bool{}}
	for i := 0; i < 7; i++ {
		t, v := g.boolT(3)
		if !v {
			t = Not(t)
		}
		p.add(t)
	}
	orig := append([]*Term{}, p.hyps...)
	if seed%100 == 0 {
		o := &Obl{name: "selftest", hyps: orig, goal: tFalse}
		o.Prepare(2)
		r := "unsat"
		if o.status == "" {
			r, _ = runSolver(solvers[0], o.script, 2*time.Second)
		}
		if r == "unsat" || strings.HasPrefix(r, "error") {
			fmt.Printf("seed %d: query %s\n   from %v\n   %v %q %v\n", seed, r, orig, g.ints, g.bts, g.bools)
			return false
		}
	}
	step := func(what string, hs []*Term) bool {
		for _, h := range hs {
			if !g.eval(h).(bool) {
				fmt.Printf("seed %d %s: %v is false\n   from %v\n   %v %q %v\n", seed, what, h, orig, g.ints, g.bts, g.bools)
				return false
			}
		}
		return true
	}
	hs := closeEqs(p.hyps)
	if !step("closeEqs", hs) {
		return false
	}
	hs = saturate(hs, nil, 2)
	if !step("saturate", hs) {
		return false
	}
	hs = closeEqs(hs)
	if !step("closeEqs 2", hs) {
		return false
	}
	return step("lateFacts", lateFacts(hs))
}

func (g *stGen) check(seed int, t *Term, v any) bool {
	w := g.eval(t)
	if w != v {
		fmt.Printf("seed %d: %v\n   want %v got %v\n   %v %q %v\n", seed, t, v, w, g.ints, g.bts, g.bools)
		return false
	}
	return true
}

func (g *stGen) intT(d int) (*Term, int64) {
	c := g.r.Intn(11)
	if d <= 0 {
		c = g.r.Intn(2)
	}
	switch c {
	case 0:
		v := int64(g.r.Intn(9) - 2)
		return I(v), v
	case 1:
		x := Var(SInt, fmt.Sprintf("zi%d", g.r.Intn(4)))
		if _, ok := g.ints[x]; !ok {
			g.ints[x] = int64(g.r.Intn(7) - 1)
		}
		return x, g.ints[x]
	case 2, 3:
		a, x := g.intT(d - 1)
		b, y := g.intT(d - 1)
		return Add(a, b), x + y
	case 4:
		a, x := g.intT(d - 1)
		b, y := g.intT(d - 1)
		return Sub(a, b), x - y
	case 5:
		a, x := g.intT(d - 1)
		k := int64(g.r.Intn(5) - 2)
		return Mul(a, I(k)), x * k
	case 6:
		a, x := g.intT(d - 2)
		b, y := g.intT(d - 2)
		return Mul(a, b), x * y
	case 7:
		a, x := g.intT(d - 1)
		k := int64(1 << (1 + g.r.Intn(3)))
		if g.r.Intn(2) == 0 {
			return IDiv(a, big.NewInt(k)), new(big.Int).Div(big.NewInt(x), big.NewInt(k)).Int64()
		}
		return IMod(a, big.NewInt(k)), new(big.Int).Mod(big.NewInt(x), big.NewInt(k)).Int64()
	case 8:
		b, y := g.bytesT(d - 1)
		return Blen(b), int64(len(y))
	case 9:
		b, y := g.bytesT(d - 1)
		i, x := g.intT(d - 2)
		if x < 0 || x >= int64(len(y)) {
			return Blen(b), int64(len(y))
		}
		return At(b, i), int64(y[x])
	default:
		q, v := g.boolT(d - 2)
		a, x := g.intT(d - 1)
		b, y := g.intT(d - 1)
		if v {
			return Ite(q, a, b), x
		}
		return Ite(q, a, b), y
	}
}

func (g *stGen) bytesT(d int) (*Term, string) {
	c := g.r.Intn(10)
	if d <= 0 {
		c = g.r.Intn(2)
	}
	switch c {
	case 0:
		s := []string{"", "a", "ab", "\x00", "abc", "\x00\x00"}[g.r.Intn(6)]
		return Lit(s), s
	case 1, 9:
		x := Var(SBytes, fmt.Sprintf("zb%d", g.r.Intn(3)))
		if _, ok := g.bts[x]; !ok {
			s := ""
			for i := g.r.Intn(4); i > 0; i-- {
				s += string([]byte{"\x00ab"[g.r.Intn(3)]})
			}
			g.bts[x] = s
		}
		return x, g.bts[x]
	case 2:
		i, x := g.intT(d - 1)
		return U8(Wrap(i, 8)), string([]byte{byte(x)})
	case 3:
		i, x := g.intT(d - 1)
		if x < 0 || x > 100 {
			return Lit("q"), "q"
		}
		return Zeros(i), string(make([]byte, x))
	case 4, 5:
		a, x := g.bytesT(d - 1)
		b, y := g.bytesT(d - 1)
		if g.r.Intn(2) == 0 {
			e, z := g.bytesT(d - 2)
			return Cat(a, b, e), x + y + z
		}
		return Cat(a, b), x + y
	case 6, 7:
		a, x := g.bytesT(d - 1)
		o, i := g.intT(d - 2)
		k, j := g.intT(d - 2)
		if i < 0 || j < 0 || i+j > int64(len(x)) {
			o, k = I(0), Blen(a)
			i, j = 0, int64(len(x))
		}
		return SubB(a, o, k), x[i : i+j]
	default:
		a, x := g.bytesT(d - 1)
		o, i := g.intT(d - 2)
		e, z := g.intT(d - 2)
		if i < 0 || i >= int64(len(x)) {
			return a, x
		}
		return Splice(a, o, U8(Wrap(e, 8))), x[:i] + string([]byte{byte(z)}) + x[i+1:]
	}
}

func (g *stGen) boolT(d int) (*Term, bool) {
	c := g.r.Intn(9)
	if d <= 0 {
		c = 0
	}
	switch c {
	case 0:
		x := Var(SBool, fmt.Sprintf("zq%d", g.r.Intn(3)))
		if _, ok := g.bools[x]; !ok {
			g.bools[x] = g.r.Intn(2) == 0
		}
		return x, g.bools[x]
	case 1:
		a, x := g.intT(d - 1)
		b, y := g.intT(d - 1)
		return Eq(a, b), x == y
	case 2:
		a, x := g.intT(d - 1)
		b, y := g.intT(d - 1)
		return Le(a, b), x <= y
	case 3, 4:
		a, x := g.bytesT(d)
		b, y := g.bytesT(d)
		return Eq(a, b), x == y
	case 5:
		a, x := g.boolT(d - 1)
		return Not(a), !x
	case 6:
		a, x := g.boolT(d - 1)
		b, y := g.boolT(d - 1)
		return And(a, b), x && y
	case 7:
		a, x := g.boolT(d - 1)
		b, y := g.boolT(d - 1)
		return Or(a, b), x || y
	default:
		a, x := g.boolT(d - 1)
		b, y := g.boolT(d - 1)
		return Eq(a, b), x == y
	}
}

// eval computes the value of a normalised term.
func (g *stGen) eval(t *Term) any {
	in := func(t *Term) int64 { return g.eval(t).(int64) }
	bs := func(t *Term) string { return g.eval(t).(string) }
	bo := func(t *Term) bool { return g.eval(t).(bool) }
	switch t.op {
	case OConst:
		if t.num != nil {
			return t.num.Int64()
		}
		return t.name == "true"
	case OVar:
		switch t.sort {
		case SInt:
			return g.ints[t]
		case SBool:
			return g.bools[t]
		}
		return g.bts[t]
	case OPoly:
		var s int64
		for _, m := range t.mons {
			p := m.c.Int64()
			for _, v := range m.vs {
				p *= in(v)
			}
			s += p
		}
		return s
	case OEq:
		if len(t.args) == 1 {
			return in(t.args[0]) == 0
		}
		return g.eval(t.args[0]) == g.eval(t.args[1])
	case OLe:
		return in(t.args[0]) <= 0
	case ONot:
		return !bo(t.args[0])
	case OAnd:
		for _, a := range t.args {
			if !bo(a) {
				return false
			}
		}
		return true
	case OOr:
		for _, a := range t.args {
			if bo(a) {
				return true
			}
		}
		return false
	case OIte:
		if bo(t.args[0]) {
			return g.eval(t.args[1])
		}
		return g.eval(t.args[2])
	case OApp:
		switch t.name {
		case "idiv":
			return new(big.Int).Div(big.NewInt(in(t.args[0])), big.NewInt(in(t.args[1]))).Int64()
		case "blen":
			return int64(len(bs(t.args[0])))
		case "u8":
			return string([]byte{byte(in(t.args[0]))})
		case "zeros":
			return string(make([]byte, in(t.args[0])))
		case "cat":
			s := ""
			for _, a := range t.args {
				s += bs(a)
			}
			return s
		case "sub":
			b, o, k := bs(t.args[0]), in(t.args[1]), in(t.args[2])
			if o < 0 || k < 0 || o+k > int64(len(b)) {
				return "?" // outside its domain
			}
			return b[o : o+k]
		case "at", "bat":
			b, o := bs(t.args[0]), in(t.args[1])
			if o < 0 || o >= int64(len(b)) {
				return int64(0)
			}
			return int64(b[o])
		}
		if s, ok := isLit(t); ok {
			return s
		}
	}
	panic("eval " + t.String())
}
