package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"
)

// bindContracts removes contracts of functions that no longer exist with that shape: such
// functions are then executed symbolically inside their callers, where possible.
func (e *Engine) bindContracts() (lost []string) {
	var order []string
	for _, n := range e.conOrder {
		c := e.contracts[n]
		if c.Extern {
			order = append(order, n)
			continue
		}
		fn := e.byKey[n]
		if fn == nil && strings.Contains(n, "$") {
			// a closure written as a method value instead
			if m := e.boundIn(e.byKey[n[:strings.Index(n, "$")]]); m != nil && len(m.Params) == 1 && e.contracts[fnKey(m)] == nil {
				fn = m
				e.byKey[n] = m
				c.Params = []string{"s"}
			}
		}
		if fn == nil {
			fn = e.promoted(n)
		}
		why := ""
		if fn == nil || len(fn.Blocks) == 0 {
			why = "function not found"
		} else {
			np := fn.Signature.Params().Len()
			if fn.Signature.Recv() != nil {
				np++
			}
			if np != len(c.Params) || fn.Signature.Results().Len() != len(c.Results) {
				why = "signature changed"
			}
		}
		if why != "" {
			lost = append(lost, n+": "+why)
			lostContracts[n] = c
			delete(e.contracts, n)
			continue
		}
		order = append(order, n)
	}
	e.conOrder = order
	return
}

var _ = types.Typ

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// ---------- lemmas ----------

// lemmaObls generates the obligations that prove a lemma: directly, or by induction.
func (e *Engine) lemmaObls(l *Lemma) []*Obl {
	m := map[*Term]*Term{}
	for _, p := range l.params {
		m[p] = Fn(p.sort, "lp_"+p.name)
	}
	var by []*Lemma
	for _, n := range lemmaOrder {
		k := lemmas[n]
		if k == l {
			break // only earlier lemmas may be used
		}
		if k.autouse || has(strings.Fields(l.induct), n) {
			by = append(by, k)
		}
	}
	hyp, concl := subst(l.hyp, m), subst(l.concl, m)
	for _, w := range l.with {
		hyp = And(hyp, subst(w, m))
	}
	if l.indIdx < 0 {
		return []*Obl{{fn: "lemma " + l.name, name: "lemma", hyps: []*Term{hyp}, goal: concl, lemma: by}}
	}
	n := m[l.params[l.indIdx]]
	base := &Obl{fn: "lemma " + l.name, name: "lemma base", hyps: []*Term{hyp, Le(n, tZero)}, goal: concl, lemma: by}
	m2 := map[*Term]*Term{}
	for k, v := range m {
		m2[k] = v
	}
	m2[l.params[l.indIdx]] = AddI(n, -1)
	ih := Implies(subst(l.hyp, m2), subst(l.concl, m2))
	step := &Obl{fn: "lemma " + l.name, name: "lemma step", hyps: []*Term{hyp, Lt(tZero, n), ih}, goal: concl, lemma: by}
	return []*Obl{base, step}
}

func (e *Engine) proveLemma(l *Lemma, to time.Duration) *FnReport {
	rep := &FnReport{Name: "lemma " + l.name, Rounds: 1}
	if l.axiom {
		return rep
	}
	obls := e.lemmaObls(l)
	for _, o := range obls {
		if o.goal.op == OAnd {
			for _, a := range o.goal.args {
				rep.Obls = append(rep.Obls, &Obl{fn: o.fn, name: o.name, hyps: o.hyps, goal: a, lemma: o.lemma})
			}
		} else {
			rep.Obls = append(rep.Obls, o)
		}
	}
	dischargeAll(rep.Obls, to, 8)
	return rep
}

// ---------- the check command ----------

type failRec struct {
	Function   string   `json:"function"`
	Obligation string   `json:"obligation"`
	Where      string   `json:"where,omitempty"`
	Solvers    string   `json:"solvers"`
	Hyps       []string `json:"hypotheses,omitempty"`
	Goal       string   `json:"goal,omitempty"`
}

type driverResult struct {
	Ran    bool
	Built  bool
	Failed bool
	Detail string
	Fails  []string
	Evals  int
	Nontr  int
	Sample []string
	Secs   float64
	Cmd    string
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	nodrv := fs.Bool("nodriver", false, "")
	verbose := fs.Bool("v", false, "")
	_ = fs.Parse(args)
	if fs.NArg() < 1 {
		fmt.Println("usage: gover check [flags] PROPERTY")
		os.Exit(2)
	}
	prop := fs.Arg(0)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	to := 10 * time.Second
	budget := 380 * time.Second
	if tier == "thorough" {
		to = 30 * time.Second
		budget = 1500 * time.Second
	}
	e := newEngine()
	out := map[string]interface{}{}
	if err := e.load(repoPath()); err != nil {
		// the tree does not build: nothing can be decided
		fmt.Println("the source does not load:", err)
		finish(prop, tier, seed, t0, out, []failRec{{Function: "build", Obligation: "the packages load and type check", Solvers: err.Error()}}, driverResult{}, nil, 0)
	}
	if err := e.loadSpecs(contractsDir()); err != nil {
		fmt.Println("contracts:", err)
		finish(prop, tier, seed, t0, out, []failRec{{Function: "contracts", Obligation: "contracts parse", Solvers: err.Error()}}, driverResult{}, nil, 0)
	}
	lost := e.bindContracts()
	e.runInits()

	deadline.Store(t0.Add(budget).UnixNano())

	// the driver runs on the side; once it has a failing input the proof need not be
	// pursued much further
	drvCh := make(chan driverResult, 1)
	if !*nodrv {
		go func() {
			r := runDriver(prop, tier, seed)
			if r.Failed && hasUnknown(prop, r.Fails) {
				deadline.Store(time.Now().Add(20 * time.Second).UnixNano())
			}
			drvCh <- r
		}()
	}

	type job struct{ name string }
	var queue []string
	queued := map[string]bool{}
	push := func(n string) {
		c := e.contracts[n]
		if c != nil && !c.Extern && !queued[n] {
			queued[n] = true
			queue = append(queue, n)
		}
	}
	roots := map[string]bool{}
	for _, n := range e.conOrder {
		c := e.contracts[n]
		if c.Extern {
			continue
		}
		if has(e.allProps(c), prop) || has(c.Safety, prop) {
			roots[n] = true
			push(n)
		}
	}
	nExpected := len(roots)
	externs := map[string]bool{}
	lemUsed := map[string]bool{}
	var reps []*FnReport
	var undecided []string
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if overtime() {
			undecided = append(undecided, n+": not reached within the time budget")
			continue
		}
		c := e.contracts[n]
		rep := e.verify(c, to)
		// a second, longer try
		var again []*Obl
		for _, o := range rep.Obls {
			if o.status != "proved" && !o.cover && len(again) < 16 {
				again = append(again, o)
			}
		}
		if len(again) > 0 && !overtime() {
			for _, o := range again {
				o.status = ""
			}
			dischargeAll(again, 3*to, 4)
		}
		reps = append(reps, rep)
		if rep.Unsup != "" {
			undecided = append(undecided, n+": "+rep.Unsup)
		}
		for _, k := range rep.Callees {
			if kc := e.contracts[k]; kc != nil && kc.Extern {
				externs[k] = true
			} else if kc != nil {
				for _, cl := range kc.Common {
					if cl.kind == "model" {
						externs[k+" (only: the ghost fields of the object it creates are given initial values, "+cl.src+")"] = true
					}
				}
			}
			push(k)
		}
		for _, l := range c.Uses {
			lemUsed[l] = true
		}
		if *verbose {
			fmt.Printf("  %s: %d obligations, %.1fs %s\n", n, len(rep.Obls), rep.Secs, rep.Unsup)
		}
	}
	// lemmas: everything used, and whatever those use, and the automatic ones
	var lemReps []*FnReport
	var axs []string
	for i := len(lemmaOrder) - 1; i >= 0; i-- {
		l := lemmas[lemmaOrder[i]]
		if !(l.autouse || lemUsed[l.name] || has(l.props, prop)) {
			continue
		}
		for _, n := range strings.Fields(l.induct) {
			lemUsed[n] = true
		}
		if l.axiom {
			axs = append(axs, "axiom "+l.source)
			continue
		}
		lemReps = append(lemReps, e.proveLemma(l, to))
	}
	reps = append(reps, lemReps...)

	var fails []failRec
	nObl, nProved, nCover := 0, 0, 0
	backends := map[string]int{}
	solver := 0.0
	var fnList []map[string]interface{}
	inl := map[string]bool{}
	var dropped []string
	for _, r := range reps {
		p, n := 0, 0
		late := ""
		for _, o := range r.Obls {
			c := e.contracts[r.Name]
			// clauses tagged for other properties only are not part of this one
			counts := true
			if len(o.props) > 0 && !has(o.props, prop) {
				counts = c == nil || equalStrs(o.props, c.Props)
				if c != nil && strings.HasPrefix(o.name, "safety:") {
					counts = false
				}
			}
			solver += o.secs
			if !counts {
				continue
			}
			if o.cover {
				nCover++
			} else {
				n++
				nObl++
			}
			if o.status == "proved" {
				if !o.cover {
					p++
					nProved++
					backends[o.backend]++
				}
				continue
			}
			f := failRec{Function: r.Name, Obligation: o.name, Where: o.where, Solvers: o.detail}
			if len(fails) < 20 && !o.cover {
				for _, h := range o.hyps {
					f.Hyps = append(f.Hyps, clip(h.String(), 600))
				}
				f.Goal = clip(o.goal.String(), 2000)
			}
			if r.Unsup != "" {
				continue // already counted as out of reach
			}
			if strings.Contains(o.detail, outOfTime) || o.status == "" {
				late = r.Name + ": " + outOfTime
				continue
			}
			// a functional clause that fails is not itself a crash: what depends
			// on it is undecided then
			if prop == "C11" && !strings.HasPrefix(o.name, "safety:") && !strings.HasPrefix(o.name, "requires ") {
				undecided = append(undecided, r.Name+": "+o.name+" does not hold, absence of crashes in its callers is not proved")
				continue
			}
			fails = append(fails, f)
		}
		if late != "" {
			undecided = append(undecided, late)
		}
		for _, i := range r.Inlined {
			inl[i] = true
		}
		for _, d := range r.Dropped {
			dropped = append(dropped, r.Name+" "+d)
		}
		fnList = append(fnList, map[string]interface{}{"function": r.Name, "obligations": n, "discharged": p, "paths": r.Paths, "seconds": round2(r.Secs), "status": statusOf(r, p, n)})
	}
	if nExpected == 0 || (nObl == 0 && len(undecided) == 0) {
		undecided = append(undecided, "no contract of this property applies to the code")
	}
	for _, l := range lost {
		n := strings.SplitN(l, ":", 2)[0]
		if has(lostProps(e, n), prop) {
			undecided = append(undecided, l)
		}
	}
	var exts []string
	for k := range externs {
		exts = append(exts, k)
	}
	sort.Strings(exts)
	out["functions_under_contract"] = fnList
	out["obligations"] = nObl
	out["discharged"] = nProved
	out["vacuity_covers"] = nCover
	out["discharged_by"] = backends
	out["solver_seconds"] = round2(solver)
	out["functions_executed_inside_their_callers"] = sortedKeys(inl)
	out["invariant_candidates_not_used"] = len(dropped)
	out["checker_cmd"] = "/verif/bin/gover check " + prop
	var tb []string
	for _, x := range exts {
		tb = append(tb, "assumed contract: "+x)
	}
	tb = append(tb, axs...)
	tb = append(tb, "golang.org/x/tools/go/ssa (translation of the source to SSA)", "gover: symbolic execution, normalisation and SMT encoding", "z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12")
	out["trusted_base"] = tb
	if undecided == nil {
		undecided = []string{}
	}
	out["functions_out_of_reach_bounded_check_instead"] = undecided
	drv := driverResult{}
	if !*nodrv {
		drv = <-drvCh
	}
	finish(prop, tier, seed, t0, out, fails, drv, undecided, nProved)
}

// hasUnknown tells whether one of the failures is not a listed finding.
func hasUnknown(prop string, fails []string) bool {
	kf := knownFindings(prop)
	for _, f := range fails {
		if matchKnown(kf, f) == "" {
			return true
		}
	}
	return len(fails) == 0
}

// lostProps: contracts removed by bindContracts are remembered by name.
var lostContracts = map[string]*Contract{}

func lostProps(e *Engine, n string) []string {
	if c := lostContracts[n]; c != nil {
		return append(e.allProps(c), c.Safety...)
	}
	return nil
}

func equalStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func statusOf(r *FnReport, p, n int) string {
	if r.Unsup != "" {
		return "out of reach: " + r.Unsup
	}
	if p == n {
		return "proved"
	}
	return "not proved"
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

var assumptionsText = []string{
	"the exec-to-logic translation: go/ssa form of /repo's current source, executed symbolically by gover; nothing is extracted by hand",
	"signed 64-bit and platform ints (int, int64) are treated as mathematical integers; 8, 16 and 32 bit and all unsigned types wrap exactly",
	"scalars are elements of an abstract field F (the integers modulo the group order l); the contracts of filippo.io/edwards25519 v1.0.0-rc.1 and of the standard library are assumed as listed in trusted_base; F is printed as an ordered-field sort with linear arithmetic plus uninterpreted multiplication, only facts valid in every field are used",
	"group elements are identified with their discrete logarithm in F (the group is cyclic of prime order l)",
	"termination of loops and absence of stack or memory exhaustion are not proved; partial correctness only",
	"sequential execution (no data races); memory is not modified through unsafe",
}

func finish(prop, tier string, seed int, t0 time.Time, out map[string]interface{}, fails []failRec, drv driverResult, undecided []string, proved int) {
	vd := verifDir()
	violations := 0
	line := ""
	kf := knownFindings(prop)
	var unk []failRec
	for _, f := range fails {
		if k := matchKnown(kf, f.Function+" "+f.Obligation); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		unk = append(unk, f)
	}
	var unkD []string
	for _, f := range drv.Fails {
		if k := matchKnown(kf, f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		unkD = append(unkD, f)
	}
	concrete := drv.Failed && (len(unkD) > 0 || len(drv.Fails) == 0)
	if drv.Ran {
		out["evaluations"] = drv.Evals
		out["distinct_nontrivial"] = drv.Nontr
		out["rule"] = "bounded concrete cross-check of the same contracts on the real code (never counted as proved): cases generated by the property's driver under /verif/replay; non-trivial as counted by the driver"
		out["samples"] = drv.Sample
		out["driver_cmd"] = drv.Cmd
		out["driver_seconds"] = round2(drv.Secs)
	}
	if len(unk) > 0 || concrete || (len(undecided) > 0 && !drv.Ran) {
		violations = len(unk)
		if concrete && violations == 0 {
			violations = 1
		}
		if violations == 0 {
			violations = 1
		}
		_ = os.MkdirAll(filepath.Join(vd, "out"), 0o755)
		rp := filepath.Join(vd, "out", prop+"-violation.json")
		rec := map[string]interface{}{
			"property":           prop,
			"failed_obligations": unk,
			"undecided":          undecided,
		}
		if concrete {
			rec["failing_inputs"] = unkD
			rec["driver_output"] = clip(drv.Detail, 20000)
			rec["replay_cmd"] = drv.Cmd
		}
		b, _ := json.MarshalIndent(rec, "", " ")
		_ = os.WriteFile(rp, b, 0o644)
		for i, f := range unk {
			if i < 12 {
				fmt.Printf("failed obligation: %s: %s %s (%s)\n", f.Function, f.Obligation, f.Where, f.Solvers)
			}
		}
		for i, f := range unkD {
			if i < 5 {
				fmt.Printf("failing input: %s\n", clip(f, 600))
			}
		}
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if !concrete {
			line += " no-failing-input-found"
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": out, "assumptions": assumptionsText, "wall_s": round2(time.Since(t0).Seconds()), "violations": violations,
	}
	if out["obligations"] == nil {
		out["obligations"], out["discharged"], out["checker_cmd"], out["trusted_base"] = 0, 0, "", []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(vd, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s: %v obligations, %v discharged, %d functions out of reach, driver ran %v, %.1fs\n", prop, out["obligations"], out["discharged"], len(undecided), drv.Ran, time.Since(t0).Seconds())
	for _, u := range undecided {
		fmt.Println("  bounded check only:", u)
	}
	if !drv.Ran && drv.Detail != "" {
		fmt.Println("  driver did not run:", clip(drv.Detail, 1500))
	}
	if line != "" {
		fmt.Println(line)
		os.Exit(1)
	}
	os.Exit(0)
}

// ---------- known findings ----------

// known-findings lines: "finding: property=<id> match=<substring> :: <what fails>"
func knownFindings(prop string) [][2]string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out [][2]string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" match=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" match=")
		if i := strings.Index(l, " :: "); i > 0 {
			out = append(out, [2]string{l[:i], l[i+4:]})
		}
	}
	return out
}

func matchKnown(kf [][2]string, s string) string {
	for _, k := range kf {
		if strings.Contains(s, k[0]) {
			return k[1]
		}
	}
	return ""
}

// ---------- the concrete driver ----------

// runDriver overlays /verif/replay/common and /verif/replay/<prop> onto /repo and runs the
// tests of the packages in the latter.
func runDriver(prop, tier string, seed int) (r driverResult) {
	t0 := time.Now()
	defer func() { r.Secs = time.Since(t0).Seconds() }()
	vd := verifDir()
	repl := map[string]string{}
	pk := map[string]bool{}
	add := func(root string, own bool) {
		_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			repl[filepath.Join(repoPath(), rel)] = p
			if own {
				pk["./"+filepath.Dir(rel)] = true
			}
			return nil
		})
	}
	add(filepath.Join(vd, "replay", "common"), false)
	add(filepath.Join(vd, "replay", prop), true)
	if len(pk) == 0 {
		r.Detail = "no driver for this property"
		return
	}
	dir, err := os.MkdirTemp("", "gover-drv-")
	if err != nil {
		r.Detail = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(dir, "overlay.json")
	_ = os.WriteFile(of, ov, 0o644)
	lim := 200
	if tier == "thorough" {
		lim = 600
	}
	args := []string{"test", "-vet=off", "-count=1", "-overlay", of, "-run", "^TestVV", "-v", "-timeout", fmt.Sprintf("%ds", lim)}
	args = append(args, sortedKeys(pk)...)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(lim+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repoPath()
	cmd.Env = append(os.Environ(), "VV_TIER="+tier, fmt.Sprintf("VV_SEED=%d", seed), "GOFLAGS=-mod=readonly", "GOPROXY=off")
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	txt := buf.String()
	r.Cmd = fmt.Sprintf("cd %s && VV_SEED=%d VV_TIER=%s go test -count=1 -overlay <files of %s/replay/common and %s/replay/%s laid over %s> -run ^TestVV -v %s", repoPath(), seed, tier, vd, vd, prop, repoPath(), strings.Join(sortedKeys(pk), " "))
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "VVFAIL "); i >= 0 {
			r.Fails = append(r.Fails, l[i+7:])
		}
		if i := strings.Index(l, "VVCOUNT "); i >= 0 {
			var a, b int
			_, _ = fmt.Sscanf(l[i+8:], "%d %d", &a, &b)
			r.Evals += a
			r.Nontr += b
		}
		if i := strings.Index(l, "VVSAMPLE "); i >= 0 && len(r.Sample) < 12 {
			r.Sample = append(r.Sample, clip(l[i+9:], 400))
		}
	}
	r.Detail = txt
	if strings.Contains(txt, "[build failed]") || strings.Contains(txt, "[setup failed]") {
		r.Ran = false
		return
	}
	r.Ran = true
	r.Built = true
	if err != nil {
		if len(r.Fails) > 0 || strings.Contains(txt, "panic:") || strings.Contains(txt, "--- FAIL") || strings.Contains(txt, "fatal error:") {
			r.Failed = true
			if len(r.Fails) == 0 {
				i := strings.Index(txt, "panic:")
				if i < 0 {
					i = strings.Index(txt, "fatal error:")
				}
				if i < 0 {
					i = 0
				}
				r.Fails = append(r.Fails, clip(strings.ReplaceAll(txt[i:], "\n", " | "), 1500))
			}
		} else {
			r.Ran = false
		}
	}
	return
}

// boundIn finds the method of this module used as a method value in fn.
func (e *Engine) boundIn(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			mc, ok := i.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			if m := boundMethod(mc.Fn.(*ssa.Function)); m != nil {
				return m
			}
		}
	}
	return nil
}
