package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblResult struct {
	Func   string  `json:"func"`
	Kind   string  `json:"kind"`
	Label  string  `json:"label"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"` // proved failed
	Solver string  `json:"solver"`
	Ms     float64 `json:"ms"`
	Detail string  `json:"detail,omitempty"`
	Sat    bool    `json:"sat,omitempty"`
}

type FuncResult struct {
	Func    string      `json:"func"`
	Obls    []OblResult `json:"obligations"`
	Used    []string    `json:"used"`
	Inlined []string    `json:"inlined"`
	Trusted []string    `json:"trusted"`
	Imprec  []string    `json:"imprecise"`
	Loops   []string    `json:"loops"`
	NLoops  int         `json:"nloops"`
	Paths   int         `json:"paths"`
	Queries int64       `json:"queries"`
	SolveS  float64     `json:"solver_seconds"`
	WallS   float64     `json:"wall_seconds"`
	Err     string      `json:"error,omitempty"`
	Vacuous bool        `json:"vacuous,omitempty"`

	Dropped map[string][]string `json:"dropped,omitempty"` // loop -> candidates that are not invariants
}

func (w *World) newExec(fn *ssa.Function, sp *FuncSpec) *Exec {
	x := &Exec{w: w, fn: fn, spec: sp, wfDone: map[string]bool{}, boxes: map[*Term]Val{}, imprec: map[string]int{}, trusted: map[string]bool{},
		used: map[string]bool{}, inlined: map[string]bool{}, forceIn: map[*ssa.Function]bool{}, stepSeen: map[string]int{}}
	x.alloc0 = Var("alloc0", SInt)
	addAxiom("alloc0", Lt(Int(0), x.alloc0))
	allocUp[x.alloc0] = nil
	if sp != nil {
		for _, n := range sp.ForceIn {
			if f := w.fns[n]; f != nil {
				x.forceIn[f] = true
			}
		}
	}
	return x
}

func (w *World) verifyFunc(name string, effort int) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Func: name}
	fn := w.fns[name]
	sp := w.db.Funcs[name]
	if fn == nil {
		res.Err = "function " + name + " under contract does not exist in the current tree"
		return
	}
	if len(fn.Blocks) == 0 {
		res.Err = "function " + name + " has no body"
		return
	}
	sumPairs = sp != nil && sp.Pairs
	x := w.newExec(fn, sp)
	defer func() {
		for k := range x.used {
			res.Used = append(res.Used, k)
		}
		for k := range x.inlined {
			res.Inlined = append(res.Inlined, w.shorten(k))
		}
		for k := range x.trusted {
			res.Trusted = append(res.Trusted, k)
		}
		for k, n := range x.imprec {
			res.Imprec = append(res.Imprec, fmt.Sprintf("%s (%d)", k, n))
		}
		sort.Strings(res.Used)
		sort.Strings(res.Inlined)
		sort.Strings(res.Trusted)
		sort.Strings(res.Imprec)
		res.Loops = x.loopLog
		res.Dropped = map[string][]string{}
		for k, m := range x.dropped {
			if len(m) > 0 {
				res.Dropped[k] = keysOf(m)
			}
		}
		res.NLoops = x.loopN
		res.Queries = statQueries
		res.SolveS = float64(statTimeNS) / 1e9
		res.WallS = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = "outside the verifier's subset: " + string(e)
			case specErr:
				res.Err = "contract cannot be evaluated: " + string(e)
			default:
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}
	}()
	st := &State{heap: map[string]*Term{}, alloc: x.alloc0, ghost: map[string]*Term{}}
	var args []Val
	for _, p := range fn.Params {
		args = append(args, x.freshVT(st, "arg."+p.Name(), p.Type()))
	}
	for ci := range x.stepClauses() {
		st.ghost[fmt.Sprintf("step!n%d", ci)] = Int(0)
	}
	x.pvars = bindParams(sp, args, fn.Signature)
	x.entry = st
	c := &sctx{x: x, st: st, old: st, vars: x.pvars, asm: true, src: sp.Name}
	x.aborts = sp.NoAbort
	x.locks = sp.Locks
	for _, cl := range sp.Clauses {
		if cl.Kind == "requires" && x.relevant(cl) {
			for _, p := range w.pieces(cl) {
				st.assume(c.boolE(p))
			}
		}
	}
	for _, a := range w.db.Axioms {
		if x.relevant(a) {
			st.assume(c.boolE(a.E))
		}
	}
	x.entry = st.clone()
	c.st, c.old = x.entry, x.entry
	ms := c.modset(sp)
	x.ms = ms
	entryPC := st.pc[:len(st.pc):len(st.pc)]
	outs := x.execFunc(st, fn, args, nil)
	n := 0
	var vac []*solveJob
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		n++
		vars := map[string]SV{}
		for k, v := range x.pvars {
			vars[k] = v
		}
		for i, r := range o.res {
			if i < len(sp.Results) {
				vars[sp.Results[i]] = SV{r, fn.Signature.Results().At(i).Type()}
			}
		}
		for _, cl := range sp.Clauses {
			if cl.Kind != "ensures" || !x.relevant(cl) {
				continue
			}
			for i, p := range w.pieces(cl) {
				ec := &sctx{x: x, st: o.st, old: x.entry, vars: vars, src: sp.Name + " " + cl.Label}
				x.oblige(o.st, "ensures", fmt.Sprintf("%s/%d: %s", cl.Label, i, exprStr(p)), ec.boolE(p), fmt.Sprintf("%s:%d", cl.File, cl.Line))
			}
		}
		if !sp.NoFrame {
			x.checkFrame(o.st, ms)
		}
		x.stepOutcome(o.st)
		if x.locks {
			x.lockOutcome(o.st)
		}
		vac = append(vac, prepare(&Query{Assume: o.st.pc, Goal: False}, 0))
	}
	for _, cl := range x.stepClauses() {
		if x.stepSeen[cl.Label] == 0 {
			res.Obls = append(res.Obls, OblResult{Func: name, Kind: "step", Label: cl.Label + ": no loop processes the elements", Status: "failed", Solver: "structure"})
		}
	}
	res.Paths = n
	_ = entryPC
	if sp.Effort > effort {
		effort = sp.Effort
	}
	var jobs []*solveJob
	for _, o := range x.obls {
		o.job = prepare(&Query{Assume: o.Assume, Goal: o.Goal}, effort)
		jobs = append(jobs, o.job)
	}
	runJobs(append(vac, jobs...))
	// a second, longer attempt for the few that were not decided
	var again []*solveJob
	for _, o := range x.obls {
		if o.job.res.Status == "unknown" && len(again) < 12 {
			o.job = prepare(&Query{Assume: o.Assume, Goal: o.Goal}, effort+1)
			again = append(again, o.job)
		}
	}
	runJobs(again)
	alive := false
	for _, v := range vac {
		if v.res.Status != "unsat" {
			alive = true
		}
	}
	if n > 0 && !alive {
		res.Vacuous = true
		res.Obls = append(res.Obls, OblResult{Func: name, Kind: "vacuity", Label: "the contract's preconditions and the assumed contracts are contradictory on every path", Status: "failed", Solver: "z3"})
	}
	seen := map[string]int{}
	for _, o := range x.obls {
		r := OblResult{Func: name, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Solver: o.job.res.Solver, Ms: float64(o.job.res.Time.Microseconds()) / 1000}
		if o.job.res.Status == "unsat" {
			r.Status = "proved"
		} else {
			r.Status = "failed"
			r.Sat = o.job.res.Status == "sat"
			out := o.job.res.Output
			if len(out) > 1500 {
				out = out[:1500]
			}
			r.Detail = fmt.Sprintf("solver answer: %s; %s\ngoal: %s", o.job.res.Status, strings.TrimSpace(out), clip(o.Goal.String(), 3000))
			if d := os.Getenv("GOVC_FAILDIR"); d != "" {
				seen[o.Kind]++
				os.WriteFile(fmt.Sprintf("%s/%s-%s-%d.smt2", d, sanitize(name), o.Kind, seen[o.Kind]), []byte("; "+o.Label+"\n; goal: "+o.Goal.String()+"\n"+o.job.text), 0644)
			}
		}
		res.Obls = append(res.Obls, r)
	}
	return
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// lockOutcome: every mutex is in the state it had on entry
func (x *Exec) lockOutcome(o *State) {
	for k, h := range o.heap {
		hi := heapInfo[k]
		sn := shortType(hi.leaf.T)
		if sn != "sync.RWMutex" && sn != "sync.Mutex" {
			continue
		}
		h0 := x.hget(x.entry, k)
		if h == h0 {
			continue
		}
		r := Fresh("mu", SInt)
		o2 := o.clone()
		o2.assume(And(Lt(Int(0), r), Le(r, x.alloc0)))
		if hi.levels == 1 {
			x.oblige(o2, "lock", "every mutex is released on return "+k, Eq(Select(h, r), Select(h0, r)), "")
		} else if hi.levels == 0 {
			x.oblige(o2, "lock", "every mutex is released on return "+k, Eq(h, h0), "")
		}
	}
}

var _ = types.Typ
