package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// One check = one property: every function with a clause of the property, and every function whose contract
// those proofs rely on, is verified again from the current sources, each in a process of its own.

var tokens []*os.File

type checkJob struct {
	name string
	res  *FuncResult
}

func (w *World) rootsOf(prop string) []string {
	var rs []string
	for n, f := range w.db.Funcs {
		if f.Trusted || strings.HasPrefix(n, "dyn:") {
			continue
		}
		is := false
		for _, p := range f.Props {
			if p == prop {
				is = true
			}
		}
		for _, c := range f.Clauses {
			if c.Kind != "ensures" && c.Kind != "step" {
				continue
			}
			for _, t := range c.Tags {
				if t == prop {
					is = true
				}
			}
		}
		if is {
			rs = append(rs, n)
		}
	}
	sort.Strings(rs)
	return rs
}

func specByOrigin(w *World, key string) string {
	return w.shorten(key)
}

func runCheck(repo, contracts, prop string, effort int, outdir string) int {
	t0 := time.Now()
	base := filepath.Dir(contracts)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier == "thorough" && effort < 3 {
		effort = 3
	}
	if outdir == "" {
		outdir = filepath.Join(base, "out")
	}
	os.MkdirAll(outdir, 0755)
	os.MkdirAll(filepath.Join(base, "evidence"), 0755)
	tmp, err := os.MkdirTemp("", "govc-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	w, err := loadWorld(repo, contracts, prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load", repo, ":", err)
		return 2
	}
	roots := w.rootsOf(prop)
	if len(roots) == 0 {
		fmt.Fprintln(os.Stderr, "no contract carries property", prop)
		return 2
	}
	self, _ := os.Executable()
	tokR, tokW, err := os.Pipe()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tokW.Write(bytes.Repeat([]byte{'.'}, runtime.NumCPU()))
	tokens = []*os.File{tokR, tokW}
	budget := time.Duration(780) * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	deadline := t0.Add(budget)
	par := 4
	if n := runtime.NumCPU(); n < 8 {
		par = (n + 1) / 2
	}
	var mu sync.Mutex
	results := map[string]*FuncResult{}
	inlineSet := map[string]bool{}
	nohints := os.Getenv("GOVC_NOHINTS") != "" || os.Getenv("GOVC_WRITE_HINTS") != ""
	runSet := func(start []string) {
		queue := append([]string{}, start...)
		seen := map[string]bool{}
		for n := range results {
			seen[n] = true
		}
		for _, r := range start {
			seen[r] = true
		}
		running := 0
		cond := sync.NewCond(&mu)
		var wg sync.WaitGroup
		worker := func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				n := queue[0]
				queue = queue[1:]
				running++
				mu.Unlock()
				r := runWorker(self, repo, contracts, prop, n, effort, tmp, deadline, keysOf(inlineSet), nohints)
				mu.Lock()
				results[n] = r
				for _, u := range r.Used {
					s := specByOrigin(w, u)
					f := w.db.Funcs[s]
					if f == nil || f.Trusted || strings.HasPrefix(s, "dyn:") || seen[s] || inlineSet[s] || f.elsewhere(prop) {
						continue
					}
					seen[s] = true
					queue = append(queue, s)
				}
				running--
				cond.Broadcast()
				mu.Unlock()
			}
		}
		for i := 0; i < par; i++ {
			wg.Add(1)
			go worker()
		}
		wg.Wait()
	}
	runSet(roots)
	known := loadKnown(filepath.Join(base, "known_findings.txt"), prop)
	isRoot := map[string]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}
	bad := func(r *FuncResult) bool {
		if r.Err != "" {
			return true
		}
		for _, o := range r.Obls {
			if o.Status != "proved" && matchKnown(known, o) == "" {
				return true
			}
		}
		return false
	}
	anyBad := func() (nonRoot []string, all []OblResult) {
		for n, r := range results {
			if !bad(r) {
				continue
			}
			if !isRoot[n] {
				nonRoot = append(nonRoot, n)
			}
			all = append(all, OblResult{Func: n})
			for _, o := range r.Obls {
				if o.Status != "proved" && matchKnown(known, o) == "" {
					all = append(all, o)
				}
			}
		}
		sort.Strings(nonRoot)
		return
	}
	// A failed obligation: look for a concrete failing input. When there is none and the contract that failed belongs
	// to an auxiliary function, its callers are proved again with its body in place of its contract.
	replayOut, replayFound, replayed := "", false, false
	for round := 0; round < 6; round++ {
		non, all := anyBad()
		if len(all) == 0 {
			break
		}
		if !replayed {
			replayOut, replayFound = runReplay(base, repo, prop, seed, all, tmp, deadline)
			replayed = true
		}
		if replayFound || nohints && len(non) == 0 || time.Until(deadline) < 60*time.Second {
			break
		}
		if !nohints {
			// the loop hints may not suit the changed code: once more without them
			nohints = true
			var redo []string
			for n, r := range results {
				if bad(r) {
					redo = append(redo, n)
				}
			}
			sort.Strings(redo)
			for _, n := range redo {
				delete(results, n)
			}
			runSet(redo)
			continue
		}
		for _, n := range non {
			inlineSet[n] = true
			delete(results, n)
		}
		var redo []string
		for n, r := range results {
			for _, u := range r.Used {
				if inlineSet[specByOrigin(w, u)] {
					redo = append(redo, n)
					break
				}
			}
		}
		sort.Strings(redo)
		for _, n := range redo {
			delete(results, n)
		}
		runSet(redo)
	}

	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	var failed []OblResult
	var knownHit []string
	nObl, nOK := 0, 0
	solvers := map[string]int{}
	kinds := map[string]int{}
	solveS := 0.0
	var queries int64
	inl, tr, imp := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var loops []string
	nloops, paths := 0, 0
	var samples []string
	for _, n := range names {
		r := results[n]
		solveS += r.SolveS
		queries += r.Queries
		nloops += r.NLoops
		paths += r.Paths
		for _, s := range r.Inlined {
			inl[s] = true
		}
		for _, s := range r.Trusted {
			tr[s] = true
		}
		for _, u := range r.Used {
			s := specByOrigin(w, u)
			if f := w.db.Funcs[s]; f != nil && (f.Trusted || strings.HasPrefix(s, "dyn:")) {
				tr["assumed contract "+s] = true
			} else if f != nil && f.elsewhere(prop) {
				tr["contract of "+s+": discharged by the checks of other properties, not by this one"] = true
			}
		}
		for _, s := range r.Imprec {
			imp[n+": "+s] = true
		}
		for _, l := range r.Loops {
			loops = append(loops, n+": "+l)
		}
		if r.Err != "" {
			nObl++
			failed = append(failed, OblResult{Func: n, Kind: "verifier", Label: "verification conditions could not be generated", Status: "failed", Detail: r.Err})
		}
		for _, o := range r.Obls {
			nObl++
			kinds[o.Kind]++
			if o.Status == "proved" {
				nOK++
				solvers[o.Solver]++
				if o.Kind == "ensures" && len(samples) < 12 && o.Solver != "simplifier" {
					samples = append(samples, fmt.Sprintf("%s: %s — %s [%s, %.0f ms]", n, o.Kind, clip(o.Label, 300), o.Solver, o.Ms))
				}
				continue
			}
			if k := matchKnown(known, o); k != "" {
				knownHit = append(knownHit, k)
				continue
			}
			failed = append(failed, o)
		}
	}
	for _, a := range w.checkAssumptions() {
		nObl++
		failed = append(failed, OblResult{Func: "dependencies", Kind: "assumption", Label: a, Status: "failed"})
	}
	ev := map[string]any{}
	ev["property"] = prop
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "proof"
	keys := keysOf
	trusted := append([]string{
		"govc (this repository's verification-condition generator over golang.org/x/tools/go/ssa) and the SSA it is given",
		"the SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation is discharged when one of them answers unsat)",
	}, keys(tr)...)
	ev["coverage"] = map[string]any{
		"obligations":                  nObl,
		"discharged":                   nOK,
		"checker_cmd":                  "cd /verif && bash check.sh " + prop,
		"trusted_base":                 trusted,
		"functions_under_contract":     names,
		"functions_inlined":            keys(inl),
		"roots":                        roots,
		"contracts_replaced_by_bodies": keysOf(inlineSet),
		"obligations_by_kind":          kinds,
		"discharged_by_back_end":       solvers,
		"solver_seconds":               round2(solveS),
		"solver_queries":               queries,
		"paths":                        paths,
		"loops_with_invariants":        nloops,
		"loop_notes":                   loops,
		"overapproximated":             keys(imp),
		"samples":                      samples,
	}
	ev["assumptions"] = assumptionText()
	ev["wall_s"] = round2(time.Since(t0).Seconds())
	ev["violations"] = 0
	write := func() {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(base, "evidence", prop+".json"), append(b, '\n'), 0644)
	}
	for _, k := range knownHit {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %.1fs solver, %.1fs wall\n", prop, len(names), nOK, nObl, solveS, time.Since(t0).Seconds())
	if os.Getenv("GOVC_WRITE_HINTS") != "" {
		hp := filepath.Join(contracts, "hints.json")
		h := readHints(hp)
		h[prop] = map[string]map[string][]string{}
		for _, n := range names {
			if len(results[n].Dropped) > 0 {
				h[prop][n] = results[n].Dropped
			}
		}
		b, _ := json.MarshalIndent(h, "", " ")
		os.WriteFile(hp, append(b, '\n'), 0644)
	}
	if len(failed) == 0 {
		write()
		return 0
	}
	for i, o := range failed {
		if i < 25 {
			fmt.Printf("  failed: %s: %s: %s\n", o.Func, o.Kind, clip(o.Label, 300))
		}
	}
	rp := map[string]any{"property": prop, "failed_obligations": failed}
	out, found := replayOut, replayFound
	if !replayed {
		out, found = runReplay(base, repo, prop, seed, failed, tmp, deadline)
	}
	rp["replay_search"] = out
	rp["failing_input_found"] = found
	rel := filepath.Join(outdir, prop+".replay.json")
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(rel, append(b, '\n'), 0644)
	ev["violations"] = len(failed)
	ev["wall_s"] = round2(time.Since(t0).Seconds())
	write()
	if found {
		fmt.Printf("%s\n", clip(out, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rel)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rel)
	}
	return 1
}

func keysOf(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func runWorker(self, repo, contracts, prop, name string, effort int, tmp string, deadline time.Time, inline []string, nohints bool) *FuncResult {
	out := filepath.Join(tmp, sanitize(name)+".json")
	os.Remove(out)
	lim := time.Until(deadline) - 90*time.Second
	if lim < 20*time.Second {
		lim = 20 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "verify", "-repo", repo, "-contracts", contracts, "-prop", prop, "-func", name, "-effort", fmt.Sprint(effort), "-out", out)
	var eb bytes.Buffer
	cmd.Stdout = nil
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GOVC_INLINE="+strings.Join(inline, ";"))
	if tokens != nil {
		cmd.ExtraFiles = tokens
		cmd.Env = append(cmd.Env, "GOVC_TOKENS=1")
	}
	if nohints {
		cmd.Env = append(cmd.Env, "GOVC_NOHINTS=1")
	}
	err := cmd.Run()
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		var r FuncResult
		if json.Unmarshal(b, &r) == nil {
			return &r
		}
	}
	return &FuncResult{Func: name, Err: fmt.Sprintf("the verifier gave no result: %v %s", err, clip(eb.String(), 2000))}
}

type knownFinding struct{ fn, label, text string }

// lines: "known: property=<id> func=<name> label=<prefix> :: <what fails>" (other lines are documentation)
func loadKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		head, txt, ok := strings.Cut(l, " :: ")
		if !ok {
			continue
		}
		var k knownFinding
		k.text = txt
		for _, f := range strings.Split(head, " ;") {
			f = strings.TrimSpace(f)
			if v, ok := strings.CutPrefix(f, "func="); ok {
				k.fn = v
			}
			if v, ok := strings.CutPrefix(f, "label="); ok {
				k.label = v
			}
		}
		if k.fn != "" && k.label != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func matchKnown(ks []knownFinding, o OblResult) string {
	for _, k := range ks {
		if k.fn == o.Func && strings.HasPrefix(o.Label, k.label) {
			return k.text
		}
	}
	return ""
}

// runReplay searches for a concrete input on which the real code breaks the property.
func runReplay(base, repo, prop string, seed int, failed []OblResult, tmp string, deadline time.Time) (string, bool) {
	script := filepath.Join(base, "replay", "run.sh")
	if _, err := os.Stat(script); err != nil {
		return "no replay harness", false
	}
	var fs []string
	for _, o := range failed {
		fs = append(fs, o.Func)
	}
	lim := time.Until(deadline)
	if lim > 300*time.Second {
		lim = 300 * time.Second
	}
	if lim < 45*time.Second {
		lim = 45 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	out := filepath.Join(tmp, "replay.out")
	cmd := exec.CommandContext(ctx, "bash", script, prop, out)
	cmd.Env = append(os.Environ(), "VERIF_REPO="+repo, "VERIF_SEED="+fmt.Sprint(seed), "VERIF_FAILED="+strings.Join(fs, ","))
	o, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(out)
	if rerr == nil && len(b) > 0 {
		return string(b), true
	}
	return clip(fmt.Sprintf("no failing input found (%v): %s", err, string(o)), 4000), false
}

func assumptionText() []string {
	return []string{
		"signed 64-bit machine integers are treated as mathematical integers (no overflow); unsigned integers wrap exactly",
		"big.Int values, Go strings and maps behave as the models in tool/models.go state (UF axioms for hashing, hex, RLP decoding and signature recovery)",
		"log, prometheus and fmt output calls have no effect on program state; log.Fatal ends the process",
		"a contract of a function is assumed at its call sites and proved separately; mutual recursion is absent",
		"code runs without data races: no other goroutine changes the state while a function under contract runs",
		"values built by the caller of a root function satisfy its requires clauses",
	}
}

func (f *FuncSpec) elsewhere(prop string) bool {
	for _, p := range f.Elsewhere {
		if p == prop {
			return true
		}
	}
	return false
}
