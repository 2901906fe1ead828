package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if f := os.Getenv("GOVER_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Println("usage: gover fn|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fn":
		cmdFn(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "selftest":
		cmdSelftest(os.Args[2:])
	case "lemmas":
		cmdLemmas(os.Args[2:])
	case "ssa":
		e := newEngine()
		if err := e.load(repoPath()); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for k, f := range e.byKey {
			if strings.Contains(k, os.Args[2]) {
				f.WriteTo(os.Stdout)
			}
		}
	}
}

func repoPath() string {
	if d := os.Getenv("GOVER_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// cmdFn verifies selected functions, for development.
func cmdFn(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	verbose := fs.Bool("v", false, "")
	dump := fs.String("dump", "", "")
	to := fs.Int("t", 10, "")
	show := fs.Bool("show", false, "")
	_ = fs.Parse(args)
	dumpDir = *dump
	e := newEngine()
	e.verbose = *verbose
	if err := e.load(repoPath()); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := e.loadSpecs(contractsDir()); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.runInits()
	if *verbose {
		for _, n := range e.initNotes {
			fmt.Println("init:", n)
		}
	}
	for _, n := range e.conOrder {
		c := e.contracts[n]
		if c.Extern {
			continue
		}
		match := len(fs.Args()) == 0
		for _, a := range fs.Args() {
			if strings.Contains(n, a) {
				match = true
			}
		}
		if !match {
			continue
		}
		rep := e.verify(c, time.Duration(*to)*time.Second)
		fails := 0
		proved := 0
		var solver float64
		for _, o := range rep.Obls {
			solver += o.secs
			if o.status == "proved" {
				proved++
			} else {
				fails++
			}
		}
		st := "OK"
		if rep.Unsup != "" {
			st = "UNSUPPORTED " + rep.Unsup
		} else if fails > 0 {
			st = "FAIL"
		}
		fmt.Printf("%-40s %s  proved %d failed %d paths %d rounds %d %.1fs solver %.1fs", n, st, proved, fails, rep.Paths, rep.Rounds, rep.Secs, solver)
		if len(rep.Inlined) > 0 {
			fmt.Printf(" inlined %v", rep.Inlined)
		}
		if len(rep.Dropped) > 0 {
			fmt.Printf(" dropped %v", rep.Dropped)
		}
		fmt.Println()
		for _, o := range rep.Obls {
			if o.status != "proved" {
				fmt.Printf("   FAILED %s %s %s [%s]\n", o.name, o.where, o.detail, strings.Join(o.props, ","))
				if *show {
					for _, h := range o.hyps {
						fmt.Printf("        | %.500s\n", h)
					}
					fmt.Printf("        |- %.700s\n", o.goal)
				}
			} else if *verbose {
				fmt.Printf("   ok %s (%s %.2fs, fuel %d prep %.2fs)\n", o.name, o.backend, o.secs, o.stage, o.prep)
			}
		}
	}
	for k := range e.noVariant {
		fmt.Println("no variant:", k)
	}
}

func cmdLemmas(args []string) {
	e := newEngine()
	if err := e.load(repoPath()); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := e.loadSpecs(contractsDir()); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, n := range lemmaOrder {
		if len(args) > 0 && !strings.Contains(n, args[0]) {
			continue
		}
		l := lemmas[n]
		if l.axiom {
			fmt.Println("axiom", n)
			continue
		}
		r := e.proveLemma(l, 10*time.Second)
		for _, o := range r.Obls {
			fmt.Printf("lemma %s %s: %s %s %.2fs %s\n", n, o.name, o.status, o.backend, o.secs, o.detail)
			if o.status != "proved" {
				for _, h := range o.hyps {
					fmt.Printf("        | %s\n", h)
				}
				fmt.Printf("        |- %s\n", o.goal)
			}
		}
	}
}
