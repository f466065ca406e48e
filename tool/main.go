package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|check|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "source tree")
	contracts := fs.String("contracts", "/verif/contracts", "contract directory")
	prop := fs.String("prop", "", "property")
	fname := fs.String("func", "", "function")
	effort := fs.Int("effort", 1, "solver effort")
	out := fs.String("out", "", "result file")
	verbose := fs.Bool("v", false, "print all obligations")
	outdir := fs.String("outdir", "", "directory of results (check)")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "verify":
		w, err := loadWorld(*repo, *contracts, *prop)
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			os.Exit(3)
		}
		r := w.verifyFunc(*fname, *effort)
		if *out != "" {
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(*out, b, 0644)
		}
		bad := printResult(r, *verbose)
		if bad {
			os.Exit(1)
		}
	case "list":
		w, err := loadWorld(*repo, *contracts, *prop)
		if err != nil {
			panic(err)
		}
		var ns []string
		for n := range w.fns {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			m := " "
			if w.db.Funcs[n] != nil {
				m = "*"
			}
			fmt.Println(m, n)
		}
		fmt.Println("missing:", w.missing)
	case "check":
		os.Exit(runCheck(*repo, *contracts, *prop, *effort, *outdir))
	}
}

func printResult(r *FuncResult, verbose bool) bool {
	bad := r.Err != ""
	np := 0
	for _, o := range r.Obls {
		if o.Status == "proved" {
			np++
			if verbose {
				fmt.Printf("  ok   %-9s %s [%s %.0fms]\n", o.Kind, o.Label, o.Solver, o.Ms)
			}
		} else {
			bad = true
			fmt.Printf("  FAIL %-9s %s (%s) [%s %.0fms]\n", o.Kind, o.Label, o.Pos, o.Solver, o.Ms)
			if verbose {
				fmt.Println("       ", o.Detail)
			}
		}
	}
	if verbose || bad {
		for _, l := range r.Loops {
			fmt.Println("  loop", l)
		}
		for _, l := range r.Imprec {
			fmt.Println("  imprecise", l)
		}
	}
	fmt.Printf("%s: %d/%d proved, %d paths, %d loops, %.1fs wall, %.1fs solver", r.Func, np, len(r.Obls), r.Paths, r.NLoops, r.WallS, r.SolveS)
	if r.Err != "" {
		fmt.Printf(" ERROR %s", r.Err)
	}
	fmt.Println()
	return bad
}
