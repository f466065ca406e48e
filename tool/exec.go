package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name   string // func/kind label
	Func   string
	Kind   string
	Label  string
	Pos    string
	Assume []*Term
	Goal   *Term
	Soft   bool
	job    *solveJob
}

type Outcome struct {
	st  *State
	res []Val
}

type Exec struct {
	w         *World
	fn        *ssa.Function
	spec      *FuncSpec
	ms        *modset
	alloc0    *Term
	wfDone    map[string]bool
	bumps     []*Term
	boxes     map[*Term]Val
	obls      []*Obligation
	discovery int
	depth     int
	entry     *State
	params    map[string]Val
	nPaths    int
	imprec    map[string]int
	trusted   map[string]bool
	used      map[string]bool // contracts used
	inlined   map[string]bool
	loopN     int
	loopNames []string
	forceIn   map[*ssa.Function]bool
	loopLog   []string
	dropped   map[string]map[string]bool
	stepSeen  map[string]int
	callStack []*ssa.Function
	aborts    bool // emit no-abort obligations
	locks     bool // emit lock-discipline obligations
	pvars     map[string]SV
	inStep    int
	loopDepth int
}

func (x *Exec) imprecise(s string) {
	x.imprec[s]++
}

func (x *Exec) pos(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	p := x.w.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.w.repo+"/"), p.Line)
}

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos string) {
	if x.discovery > 0 || st.dead || goal == True {
		if goal == True && x.discovery == 0 && !st.dead {
			x.obls = append(x.obls, &Obligation{Func: x.fn.String(), Kind: kind, Label: label, Goal: True, Pos: pos})
		}
		return
	}
	x.obls = append(x.obls, &Obligation{Func: x.fn.String(), Kind: kind, Label: label, Pos: pos,
		Assume: st.pc[:len(st.pc):len(st.pc)], Goal: goal})
}

// abort: the path ends abnormally (panic, Fatal, nil dereference)
func (x *Exec) abort(st *State, what string, pos string) {
	if x.aborts && !st.dead {
		x.oblige(st, "noabort", what, False, pos)
	}
	st.dead = true
}

// mustHold: execution continues only when t holds; otherwise the program aborts.
func (x *Exec) mustHold(st *State, t *Term, what string, pos string) {
	if t == True {
		return
	}
	if x.aborts {
		x.oblige(st, "noabort", what, t, pos)
	}
	st.assume(t)
}

// ---------------------------------------------------------------- function execution

func (x *Exec) execFunc(st *State, fn *ssa.Function, args []Val, binds []Val) []Outcome {
	if len(x.callStack) > 14 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	for _, f := range x.callStack {
		if f == fn {
			panic(unsupported("recursive inlining of " + fn.String()))
		}
	}
	x.callStack = append(x.callStack, fn)
	defer func() { x.callStack = x.callStack[:len(x.callStack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]Val{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	saved := st.fr
	st.fr = fr
	fi := x.w.info(fn)
	rc := &regionCtx{x: x, fi: fi, in: nil}
	rc.run(fn.Blocks[0], []*State{st}, nil)
	outs := rc.outs
	outs = x.mergeOutcomes(outs, 6)
	for _, o := range outs {
		if saved != nil {
			o.st.fr = saved.clone()
		} else {
			// keep the frame of the verified function for diagnostics
		}
	}
	return outs
}

// ---------------------------------------------------------------- CFG info

type loopInfo struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
}
type fnInfo struct {
	fn      *ssa.Function
	rpo     []*ssa.BasicBlock
	idx     map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*loopInfo // by header
	live    []map[ssa.Value]bool          // live-in per block index
	sink    map[ssa.Value]bool
	named   map[ssa.Value]string
	nameOf  map[*ssa.Phi]string
	sinkVis map[ssa.Value]int
}

func (w *World) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, sink: map[ssa.Value]bool{}, sinkVis: map[ssa.Value]int{}}
	w.fnInfos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := fi.loops[s]
				if li == nil {
					li = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = li
				}
				var add func(c *ssa.BasicBlock)
				add = func(c *ssa.BasicBlock) {
					if li.body[c] {
						return
					}
					li.body[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	// liveness
	n := len(fn.Blocks)
	fi.live = make([]map[ssa.Value]bool, n)
	for i := range fi.live {
		fi.live[i] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					lv[v] = true
				}
				for pi, p := range s.Preds {
					if p == b {
						for _, in := range s.Instrs {
							if phi, ok := in.(*ssa.Phi); ok {
								if tracked(phi.Edges[pi]) {
									lv[phi.Edges[pi]] = true
								}
							} else {
								break
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(lv, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				var buf [16]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					if *op != nil && tracked(*op) {
						lv[*op] = true
					}
				}
			}
			// phis stay live-in (already evaluated at the edge)
			for v := range lv {
				if !fi.live[b.Index][v] {
					fi.live[b.Index][v] = true
					ch = true
				}
			}
		}
	}
	for _, b := range fi.rpo { // dead phis need not be kept
		_ = b
	}
	return fi
}

// ---------------------------------------------------------------- regions

type regionCtx struct {
	x    *Exec
	fi   *fnInfo
	in   map[*ssa.BasicBlock]bool // nil: whole function
	own  *ssa.BasicBlock          // own loop header
	back []*State
	exit map[*ssa.BasicBlock][]*State
	outs []Outcome
}

const maxStates = 14

func (rc *regionCtx) run(start *ssa.BasicBlock, init []*State, _ interface{}) {
	x := rc.x
	pending := map[*ssa.BasicBlock][]*State{start: init}
	rc.exit = map[*ssa.BasicBlock][]*State{}
	done := map[*ssa.BasicBlock]bool{}
	first := true
	for {
		// next pending block in RPO
		var b *ssa.BasicBlock
		for _, c := range rc.fi.rpo {
			if len(pending[c]) > 0 {
				b = c
				break
			}
		}
		if b == nil {
			return
		}
		sts := pending[b]
		delete(pending, b)
		if done[b] {
			panic(unsupported("irreducible control flow in " + rc.fi.fn.String()))
		}
		done[b] = true
		li := rc.fi.loops[b]
		if li != nil && !(first && b == rc.own) {
			sts = x.mergeStates(sts, rc.fi, b, 1)
			for _, s := range sts {
				ex, outs := x.execLoop(rc.fi, li, s)
				rc.outs = append(rc.outs, outs...)
				var bs []*ssa.BasicBlock
				for eb := range ex {
					bs = append(bs, eb)
				}
				sort.Slice(bs, func(i, j int) bool { return rc.fi.idx[bs[i]] < rc.fi.idx[bs[j]] })
				for _, eb := range bs {
					for _, es := range ex[eb] {
						rc.arrive(es, nil, eb, pending)
					}
				}
			}
			first = false
			continue
		}
		first = false
		sts = x.mergeStates(sts, rc.fi, b, maxStates)
		for _, s := range sts {
			for _, r := range rc.block(s, b, 0) {
				rc.arrive(r.st, b, r.to, pending)
			}
		}
	}
}

// arrive: state s reached block `to`; from==nil means phis were already evaluated.
func (rc *regionCtx) arrive(s *State, from, to *ssa.BasicBlock, pending map[*ssa.BasicBlock][]*State) {
	if s.dead {
		return
	}
	if from != nil {
		rc.x.enter(s, from, to)
		live := rc.fi.live[to.Index]
		for v := range s.fr.env {
			if !live[v] {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == to {
					continue
				}
				delete(s.fr.env, v)
			}
		}
	}
	switch {
	case rc.own != nil && to == rc.own:
		rc.back = append(rc.back, s)
	case rc.in != nil && !rc.in[to]:
		rc.exit[to] = append(rc.exit[to], s)
	default:
		pending[to] = append(pending[to], s)
	}
}

// enter evaluates the phis of `to` on the edge from->to.
func (x *Exec) enter(s *State, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if x.w.sinkOnly(x.w.info(s.fr.fn), phi) {
			continue
		}
		phis = append(phis, phi)
		vals = append(vals, x.val(s, phi.Edges[pi]))
	}
	for i, p := range phis {
		s.fr.env[p] = vals[i]
		if p.Comment != "" {
			s.fr.names[p.Comment] = vals[i]
		}
	}
}

type succState struct {
	st *State
	to *ssa.BasicBlock
}

// block executes b from instruction index i.
func (rc *regionCtx) block(s *State, b *ssa.BasicBlock, i int) []succState {
	x := rc.x
	for ; i < len(b.Instrs); i++ {
		if s.dead {
			return nil
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []succState{{s, b.Succs[0]}}
		case *ssa.If:
			c := x.term(s, in.Cond)
			switch s.decide(c) {
			case True:
				return []succState{{s, b.Succs[0]}}
			case False:
				return []succState{{s, b.Succs[1]}}
			}
			t := s.clone()
			s.assume(c)
			t.assume(Not(c))
			var out []succState
			if !s.dead {
				out = append(out, succState{s, b.Succs[0]})
			}
			if !t.dead {
				out = append(out, succState{t, b.Succs[1]})
			}
			return out
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(s, r))
			}
			rc.outs = append(rc.outs, Outcome{s, rs})
			return nil
		case *ssa.Panic:
			x.abort(s, "panic", x.pos(in))
			return nil
		case *ssa.RunDefers:
			sts := []*State{s}
			for n := len(s.fr.defers) - 1; n >= 0; n-- {
				d := s.fr.defers[n]
				var nx []*State
				for _, t := range sts {
					for _, r := range x.callValue(t, d.call, d.fnv, d.args, d.pos) {
						if !r.st.dead {
							nx = append(nx, r.st)
						}
					}
				}
				sts = nx
			}
			var out []succState
			for _, t := range sts {
				t.fr.defers = nil
				out = append(out, rc.block(t, b, i+1)...)
			}
			return out
		case *ssa.Defer:
			fnv, args := x.callArgs(s, &in.Call)
			s.fr.defers = append(s.fr.defers, deferred{&in.Call, args, fnv, in})
			continue
		case *ssa.Call:
			if x.w.sinkOnly(rc.fi, in) && x.w.removableCall(in) {
				continue
			}
			rs := x.call(s, in)
			if len(rs) == 1 {
				if rs[0].st.dead {
					return nil
				}
				s = rs[0].st
				s.fr.env[in] = rs[0].v
				continue
			}
			var out []succState
			for _, r := range rs {
				if r.st.dead {
					continue
				}
				r.st.fr.env[in] = r.v
				out = append(out, rc.block(r.st, b, i+1)...)
			}
			return out
		default:
			x.instr(s, in)
		}
	}
	return nil
}

// ---------------------------------------------------------------- merging

func valEq(a, b Val) bool {
	switch p := a.(type) {
	case *VT:
		q, ok := b.(*VT)
		if !ok || len(p.L) != len(q.L) {
			return false
		}
		for i := range p.L {
			if p.L[i] != q.L[i] {
				return false
			}
		}
		return true
	case *LV:
		q, ok := b.(*LV)
		return ok && (p == q || p.Kind == q.Kind && p.Ref == q.Ref && p.Idx == q.Idx && p.Owner == q.Owner && p.Path == q.Path && p.ArrIdx == q.ArrIdx)
	case VTuple:
		q, ok := b.(VTuple)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !valEq(p[i], q[i]) {
				return false
			}
		}
		return true
	case *VIface:
		q, ok := b.(*VIface)
		return ok && (p == q || types.Identical(p.T, q.T) && valEq(p.V, q.V))
	case *VClosure:
		q, ok := b.(*VClosure)
		if !ok || p.Fn != q.Fn || len(p.Binds) != len(q.Binds) {
			return false
		}
		for i := range p.Binds {
			if !valEq(p.Binds[i], q.Binds[i]) {
				return false
			}
		}
		return true
	case *VIter:
		q, ok := b.(*VIter)
		return ok && (p == q || p.Key == q.Key && p.M == q.M)
	}
	return a == b
}

func commonPrefix(a, b []*Term) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// sameState: identical up to path condition (live env only)
func (x *Exec) sameState(a, b *State) bool {
	if a.alloc != b.alloc || len(a.fr.defers) != len(b.fr.defers) {
		return false
	}
	if !x.sameHeap(a, b) || !sameMap(a.ghost, b.ghost) {
		return false
	}
	if len(a.fr.env) != len(b.fr.env) {
		return false
	}
	for k, v := range a.fr.env {
		w, ok := b.fr.env[k]
		if !ok || !valEq(v, w) {
			return false
		}
	}
	return true
}
func (x *Exec) sameHeap(a, b *State) bool {
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			w = x.baseVar(k)
		}
		if v != w {
			return false
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok && w != x.baseVar(k) {
			return false
		}
	}
	return true
}
func sameMap(a, b map[string]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// pcMerge builds the path condition for the union of two states.
func pcMerge(a, b []*Term) []*Term {
	inB := map[*Term]bool{}
	for _, t := range b {
		inB[t] = true
	}
	inA := map[*Term]bool{}
	for _, t := range a {
		inA[t] = true
	}
	var out, ra, rb []*Term
	for _, t := range a {
		if inB[t] {
			out = append(out, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	o := Or(And(ra...), And(rb...))
	if o != True {
		out = append(out, o)
	}
	return out
}

func (x *Exec) mergeStates(sts []*State, fi *fnInfo, b *ssa.BasicBlock, limit int) []*State {
	var alive []*State
	for _, s := range sts {
		if !s.dead {
			alive = append(alive, s)
		}
	}
	sts = alive
	if len(sts) <= 1 {
		return sts
	}
	// identical states
	var out []*State
	for _, s := range sts {
		merged := false
		for _, o := range out {
			if x.sameState(o, s) {
				o.pc = pcMerge(o.pc, s.pc)
				o.fr.names = interNames(o.fr.names, s.fr.names)
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, s)
		}
	}
	for len(out) > limit {
		// ite-merge the last two
		a, c := out[len(out)-2], out[len(out)-1]
		m := x.iteMerge(a, c)
		if m == nil {
			return out
		}
		out = append(out[:len(out)-2], m)
	}
	return out
}

func interNames(a, b map[string]Val) map[string]Val {
	n := map[string]Val{}
	for k, v := range a {
		if w, ok := b[k]; ok && valEq(v, w) {
			n[k] = v
		}
	}
	return n
}

func (x *Exec) iteVal(c *Term, a, b Val, st *State) (Val, bool) {
	if valEq(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case *VT:
		q, ok := b.(*VT)
		if !ok {
			if lv, isLV := b.(*LV); isLV && lv.Kind == 1 && lv.Path == "" {
				q = vt(p.T, lv.Ref)
			} else if _, isI := b.(*VIface); isI {
				q = x.toVT(st, b, p.T)
			} else {
				return nil, false
			}
		}
		if len(p.L) != len(q.L) {
			return nil, false
		}
		n := &VT{T: p.T}
		for i := range p.L {
			n.L = append(n.L, Ite(c, p.L[i], q.L[i]))
		}
		return n, true
	case *VIface:
		return x.iteVal(c, x.toVT(st, a, types.Universe.Lookup("error").Type()), b, st)
	case VTuple:
		q, ok := b.(VTuple)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		var n VTuple
		for i := range p {
			v, ok := x.iteVal(c, p[i], q[i], st)
			if !ok {
				return nil, false
			}
			n = append(n, v)
		}
		return n, true
	}
	return nil, false
}

func (x *Exec) iteMerge(a, b *State) *State {
	inB := map[*Term]bool{}
	for _, t := range b.pc {
		inB[t] = true
	}
	var ra []*Term
	for _, t := range a.pc {
		if !inB[t] {
			ra = append(ra, t)
		}
	}
	c := And(ra...)
	// a fresh selector keeps the path conditions small
	sel := Fresh("path", SBool)
	m := a.clone()
	inA := map[*Term]bool{}
	for _, t := range a.pc {
		inA[t] = true
	}
	var rb []*Term
	for _, t := range b.pc {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	var pc []*Term
	for _, t := range a.pc {
		if inB[t] {
			pc = append(pc, t)
		}
	}
	pc = append(pc, Implies(sel, c), Implies(Not(sel), And(rb...)))
	m.rw = map[*Term]*Term{}
	for k, v := range a.rw {
		if b.rw[k] == v {
			m.rw[k] = v
		}
	}
	m.pc = nil
	for _, t := range pc {
		if t != True {
			m.pc = append(m.pc, t)
		}
	}
	for k := range b.heap {
		if _, ok := m.heap[k]; !ok {
			m.heap[k] = x.baseVar(k)
		}
	}
	for k, v := range m.heap {
		w, ok := b.heap[k]
		if !ok {
			w = x.baseVar(k)
		}
		m.heap[k] = Ite(sel, v, w)
	}
	ghd := func(k string) *Term {
		if strings.HasPrefix(k, "step!h") {
			return x.hgetEntry(k[len("step!h"):])
		}
		if strings.HasPrefix(k, "step!n") {
			return Int(0)
		}
		return nil
	}
	for k := range b.ghost {
		if _, ok := m.ghost[k]; !ok && ghd(k) != nil {
			m.ghost[k] = ghd(k)
		}
	}
	for k, v := range m.ghost {
		w, ok := b.ghost[k]
		if !ok {
			w = ghd(k)
		}
		if w != nil && w.S == v.S {
			m.ghost[k] = Ite(sel, v, w)
		} else {
			delete(m.ghost, k)
		}
	}
	if a.alloc != b.alloc {
		n := Fresh("alloc", SInt)
		m.pc = append(m.pc, Le(a.alloc, n), Le(b.alloc, n))
		allocUp[n] = append(allocUp[n], a.alloc, b.alloc)
		m.alloc = n
		x.bumps = append(x.bumps, n)
	}
	for k, v := range a.fr.env {
		w, ok := b.fr.env[k]
		if !ok {
			delete(m.fr.env, k)
			continue
		}
		nv, ok := x.iteVal(sel, v, w, m)
		if !ok {
			return nil
		}
		m.fr.env[k] = nv
	}
	m.fr.names = map[string]Val{}
	for k, v := range a.fr.names {
		if w, ok := b.fr.names[k]; ok {
			if nv, ok := x.iteVal(sel, v, w, m); ok {
				m.fr.names[k] = nv
			}
		}
	}
	return m
}

func (x *Exec) mergeOutcomes(outs []Outcome, limit int) []Outcome {
	var alive []Outcome
	for _, o := range outs {
		if !o.st.dead {
			o.st.fr.env = map[ssa.Value]Val{}
			alive = append(alive, o)
		}
	}
	var res []Outcome
	for _, o := range alive {
		done := false
		for i, r := range res {
			if x.sameState(r.st, o.st) && valEq(VTuple(r.res), VTuple(o.res)) {
				res[i].st.pc = pcMerge(r.st.pc, o.st.pc)
				res[i].st.fr.names = interNames(r.st.fr.names, o.st.fr.names)
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	if x.depthTop() {
		return res
	}
	// boolean helpers: same heap, differing scalar results -> one state with a defined result
	for len(res) > limit {
		a, b := res[len(res)-2], res[len(res)-1]
		m := x.mergeOut(a, b)
		if m == nil {
			break
		}
		res = append(res[:len(res)-2], *m)
	}
	return res
}

func (x *Exec) depthTop() bool { return len(x.callStack) <= 1 }

func (x *Exec) mergeOut(a, b Outcome) *Outcome {
	tmpA, tmpB := a.st.clone(), b.st.clone()
	key := &ssa.Const{}
	tmpA.fr.env = map[ssa.Value]Val{key: VTuple(a.res)}
	tmpB.fr.env = map[ssa.Value]Val{key: VTuple(b.res)}
	m := x.iteMerge(tmpA, tmpB)
	if m == nil {
		return nil
	}
	t := m.fr.env[key].(VTuple)
	m.fr.env = map[ssa.Value]Val{}
	return &Outcome{m, []Val(t)}
}

// ---------------------------------------------------------------- values of operands

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVT(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vt(t, BoolT(constant.BoolVal(c.Value)))
	case constant.String:
		return vt(t, StrLit(constant.StringVal(c.Value)))
	case constant.Int:
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return vt(t, IntB(b))
	case constant.Float:
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			if isFloat(t) {
				return vt(t, UF("floatlit", SInt, IntB(b)))
			}
			return vt(t, IntB(b))
		}
		return vt(t, Var("float:"+c.Value.ExactString(), SInt))
	}
	return vt(t, Var("const:"+c.Value.ExactString(), SInt))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) val(s *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		et := c.Type().Underlying().(*types.Pointer).Elem()
		return &LV{Kind: 0, Owner: "G:" + c.Pkg.Pkg.Name() + "." + c.Name(), T: et}
	case *ssa.Function:
		return &VClosure{Fn: c}
	case *ssa.Builtin:
		return VBuiltin{c.Name()}
	}
	r, ok := s.fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s (%s) undefined in %s", v.Name(), v, s.fr.fn)))
	}
	return r
}

func (x *Exec) vtOf(s *State, v ssa.Value) *VT { return x.toVT(s, x.val(s, v), v.Type()) }
func (x *Exec) term(s *State, v ssa.Value) *Term {
	w := x.vtOf(s, v)
	return w.L[0]
}

// ---------------------------------------------------------------- instructions

func (x *Exec) nilCheck(s *State, p Val, pos string) {
	if w, ok := p.(*VT); ok {
		x.mustHold(s, Ne(w.L[0], Int(0)), "nil dereference", pos)
	}
}

func (x *Exec) instr(s *State, in ssa.Instruction) {
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "  [%d] %s: %s\n", len(x.callStack), s.fr.fn.Name(), in)
	}
	fi := x.w.info(s.fr.fn)
	if v, ok := in.(ssa.Value); ok {
		if x.w.sinkOnly(fi, v) {
			return
		}
	}
	set := func(v Val) { s.fr.env[in.(ssa.Value)] = v }
	switch i := in.(type) {
	case *ssa.DebugRef:
		if id, ok := i.Expr.(*ast.Ident); ok && !i.IsAddr {
			if v, ok := s.fr.env[i.X]; ok {
				s.fr.names[id.Name] = v
			} else if c, ok := i.X.(*ssa.Const); ok {
				s.fr.names[id.Name] = x.constVal(c)
			}
		} else if ok && i.IsAddr {
			if v, ok := s.fr.env[i.X]; ok {
				s.fr.names["&"+id.Name] = v
			}
		}
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		set(x.allocObj(s, et, i.Type()))
		if i.Comment != "" && i.Comment != "complit" && i.Comment != "varargs" && i.Comment != "new" {
			s.fr.names["&"+i.Comment] = s.fr.env[i]
		}
	case *ssa.FieldAddr:
		p := x.val(s, i.X)
		x.nilCheck(s, p, x.pos(in))
		pt := i.X.Type().Underlying().(*types.Pointer).Elem()
		lv := x.pointee(p, pt)
		st := pt.Underlying().(*types.Struct)
		f := st.Field(i.Field)
		n := *lv
		n.Path = joinPath(lv.Path, f.Name())
		n.T = f.Type()
		set(&n)
	case *ssa.Field:
		w := x.vtOf(s, i.X)
		lo, hi := fieldRange(i.X.Type(), i.Field)
		set(&VT{w.L[lo:hi], i.Type()})
	case *ssa.IndexAddr:
		x.indexAddr(s, i)
	case *ssa.Index:
		w := x.vtOf(s, i.X)
		ix := x.term(s, i.Index)
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.mustHold(s, And(Le(Int(0), ix), Lt(ix, UF("strlen", SInt, w.L[0]))), "string index out of range", x.pos(in))
			set(vt(i.Type(), UF("strat", SInt, w.L[0], ix)))
			return
		}
		out := &VT{T: i.Type()}
		for _, l := range w.L {
			out.L = append(out.L, Select(l, ix))
		}
		set(out)
	case *ssa.Lookup:
		x.lookup(s, i)
	case *ssa.Extract:
		switch t := x.val(s, i.Tuple).(type) {
		case VTuple:
			set(t[i.Index])
		default:
			panic(unsupported("extract of non tuple"))
		}
	case *ssa.UnOp:
		x.unop(s, i)
	case *ssa.BinOp:
		set(x.binop(s, i.Op, x.val(s, i.X), x.val(s, i.Y), i.X.Type(), i.Y.Type(), i.Type(), x.pos(in)))
	case *ssa.Store:
		if x.w.sinkStore(fi, i.Addr) {
			return
		}
		p := x.val(s, i.Addr)
		x.nilCheck(s, p, x.pos(in))
		et := i.Addr.Type().Underlying().(*types.Pointer).Elem()
		x.store(s, x.pointee(p, et), x.val(s, i.Val))
	case *ssa.MakeMap:
		r := x.newRef(s)
		m := i.Type().Underlying().(*types.Map)
		d, _, _ := x.mapKeys(m)
		s.heap[d] = Store(x.hget(s, d), r, ConstArr(ArrS(mapKeySort(m), SBool), False))
		set(vt(i.Type(), r))
	case *ssa.MapUpdate:
		if x.w.sinkStore(fi, i.Map) {
			return
		}
		m := i.Map.Type().Underlying().(*types.Map)
		r := x.term(s, i.Map)
		x.mustHold(s, Ne(r, Int(0)), "assignment to nil map", x.pos(in))
		x.mapStore(s, m, r, x.term(s, i.Key), x.toVT(s, x.val(s, i.Value), m.Elem()))
	case *ssa.MakeSlice:
		r := x.newRef(s)
		el := i.Type().Underlying().(*types.Slice).Elem()
		ls, ks := x.elKeys(el)
		for j, l := range ls {
			s.heap[ks[j]] = Store(x.hget(s, ks[j]), r, ConstArr(ArrS(SInt, l.S), zeroOf(l.S)))
		}
		n := x.term(s, i.Len)
		x.mustHold(s, Le(Int(0), n), "negative slice length", x.pos(in))
		set(&VT{[]*Term{r, Int(0), n}, i.Type()})
	case *ssa.Slice:
		x.sliceInstr(s, i)
	case *ssa.MakeInterface:
		v := x.val(s, i.X)
		set(&VIface{T: i.X.Type(), V: v})
	case *ssa.MakeClosure:
		cl := &VClosure{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			cl.Binds = append(cl.Binds, x.val(s, b))
		}
		set(cl)
	case *ssa.ChangeType:
		v := x.val(s, i.X)
		if w, ok := v.(*VT); ok {
			set(&VT{w.L, i.Type()})
		} else {
			set(v)
		}
	case *ssa.ChangeInterface:
		set(x.val(s, i.X))
	case *ssa.Convert:
		set(x.convert(s, x.val(s, i.X), i.X.Type(), i.Type()))
	case *ssa.TypeAssert:
		v := x.val(s, i.X)
		if w, ok := v.(*VT); ok {
			if b, ok := x.boxes[w.L[0]]; ok {
				v = b
			}
		}
		if f, ok := v.(*VIface); ok && !types.IsInterface(i.AssertedType) {
			if types.Identical(f.T, i.AssertedType) {
				if i.CommaOk {
					set(VTuple{f.V, vt(types.Typ[types.Bool], True)})
				} else {
					set(f.V)
				}
				return
			}
			if i.CommaOk {
				set(VTuple{zeroVT(i.AssertedType), vt(types.Typ[types.Bool], False)})
				return
			}
			x.abort(s, "type assertion", x.pos(in))
			return
		}
		r := x.freshVT(s, "tassert", i.AssertedType)
		if i.CommaOk {
			set(VTuple{r, vt(types.Typ[types.Bool], Fresh("ok", SBool))})
		} else {
			set(r)
		}
	case *ssa.Range:
		mt, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			set(&VIter{IsStr: true})
			return
		}
		r := x.term(s, i.X)
		key := fmt.Sprintf("IT:%s:%d:%d", s.fr.fn.Name(), i.Block().Index, len(x.callStack))
		x.regKey(key, 0, SInt, Leaf{"", ArrS(mapKeySort(mt), SBool), mt})
		s.heap[key] = ConstArr(ArrS(mapKeySort(mt), SBool), False)
		set(&VIter{Key: key, M: r, MT: mt, Dom0: x.mapDom(s, mt, r)})
	case *ssa.Next:
		x.next(s, i)
	case *ssa.Go:
		x.imprecise("go statement skipped: " + i.String())
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		if v, ok := in.(ssa.Value); ok {
			set(x.freshVT(s, "chan", v.Type()))
		}
		x.imprecise("channel operation")
	default:
		panic(unsupported(fmt.Sprintf("instruction %T %s", in, in)))
	}
}

func (x *Exec) next(s *State, i *ssa.Next) {
	it, ok := x.val(s, i.Iter).(*VIter)
	if !ok || it.IsStr {
		tu := i.Type().(*types.Tuple)
		s.fr.env[i] = VTuple{vt(types.Typ[types.Bool], Fresh("ok", SBool)), x.freshVT(s, "rk", types.Typ[types.Int]), x.freshVT(s, "rv", types.Typ[types.Rune])}
		_ = tu
		return
	}
	ks := mapKeySort(it.MT)
	vis := x.hget(s, it.Key)
	dom := x.mapDom(s, it.MT, it.M)
	okT := Fresh("more", SBool)
	k := Fresh("key", ks)
	touch(k)
	if ks == SInt {
		if lo, hi, isI := intRange(it.MT.Key()); isI {
			s.assume(And(Le(IntB(lo), k), Le(k, IntB(hi))))
		}
	}
	s.assume(Implies(okT, And(Ne(it.M, Int(0)), Select(dom, k), Not(Select(vis, k)))))
	// exhausted: every key still present has been visited
	b := BoundVar("k", ks)
	dk := Select(dom, b)
	body := dk
	if it.Dom0 != dom {
		body = And(dk, Select(it.Dom0, b))
	}
	fa := Forall([]*Term{b}, Implies(body, Select(vis, b)))
	s.assume(Implies(Not(okT), fa))
	s.heap[it.Key] = Ite(okT, Store(vis, k, True), vis)
	s.ghost["key:"+it.Key] = k
	s.fr.env[i] = VTuple{vt(types.Typ[types.Bool], okT), vt(it.MT.Key(), k), x.mapVal(s, it.MT, it.M, k)}
}

func (x *Exec) lookup(s *State, i *ssa.Lookup) {
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		w := x.vtOf(s, i.X)
		ix := x.term(s, i.Index)
		x.mustHold(s, And(Le(Int(0), ix), Lt(ix, UF("strlen", SInt, w.L[0]))), "string index out of range", x.pos(i))
		s.fr.env[i] = vt(i.Type(), UF("strat", SInt, w.L[0], ix))
		return
	}
	m := i.X.Type().Underlying().(*types.Map)
	r := x.term(s, i.X)
	k := x.term(s, i.Index)
	touch(k)
	in := Select(x.mapDom(s, m, r), k)
	if r.K != KInt && !x.knownNonNil(s, r) {
		in = And(Ne(r, Int(0)), in)
	}
	v := x.mapVal(s, m, r, k)
	z := zeroVT(m.Elem())
	out := &VT{T: m.Elem()}
	switch s.decide(in) {
	case True:
		out.L = v.L
	case False:
		out.L = z.L
	default:
		for j := range v.L {
			out.L = append(out.L, Ite(in, v.L[j], z.L[j]))
		}
	}
	if i.CommaOk {
		s.fr.env[i] = VTuple{out, vt(types.Typ[types.Bool], in)}
	} else {
		s.fr.env[i] = out
	}
}

func (x *Exec) knownNonNil(s *State, r *Term) bool {
	n := Ne(r, Int(0))
	if n == True {
		return true
	}
	for _, p := range s.pc {
		if p == n {
			return true
		}
	}
	return false
}

func (x *Exec) indexAddr(s *State, i *ssa.IndexAddr) {
	p := x.val(s, i.X)
	ix := x.term(s, i.Index)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		w := x.toVT(s, p, i.X.Type())
		x.mustHold(s, And(Le(Int(0), ix), Lt(ix, w.L[2])), "index out of range", x.pos(i))
		s.fr.env[i] = &LV{Kind: 2, Ref: w.L[0], Idx: Add(w.L[1], ix), Owner: "EL:" + elName(u.Elem()), T: u.Elem()}
		x.elKeys(u.Elem())
		touchIx(ix)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.mustHold(s, And(Le(Int(0), ix), Lt(ix, Int(at.Len()))), "index out of range", x.pos(i))
		lv := x.pointee(p, u.Elem())
		if lv.isWholeArray() {
			s.fr.env[i] = &LV{Kind: 2, Ref: lv.Ref, Idx: ix, Owner: lv.Owner, T: at.Elem()}
			x.elKeys(at.Elem())
			return
		}
		n := *lv
		n.ArrIdx = ix
		n.ArrT = lv.T
		n.T = at.Elem()
		s.fr.env[i] = &n
	default:
		panic(unsupported("indexaddr " + i.X.Type().String()))
	}
}

func (x *Exec) sliceInstr(s *State, i *ssa.Slice) {
	lo := Int(0)
	if i.Low != nil {
		lo = x.term(s, i.Low)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		w := x.vtOf(s, i.X)
		n := UF("strlen", SInt, w.L[0])
		hi := n
		if i.High != nil {
			hi = x.term(s, i.High)
		}
		x.mustHold(s, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds out of range", x.pos(i))
		s.fr.env[i] = vt(i.Type(), UF("substr", SStr, w.L[0], lo, hi))
	case *types.Slice:
		w := x.vtOf(s, i.X)
		hi := w.L[2]
		if i.High != nil {
			hi = x.term(s, i.High)
			if hi != w.L[2] {
				x.imprecise("slice bound taken against length, not capacity")
			}
		}
		x.mustHold(s, And(Le(Int(0), lo), Le(lo, hi), Le(hi, w.L[2])), "slice bounds out of range", x.pos(i))
		s.fr.env[i] = &VT{[]*Term{w.L[0], Add(w.L[1], lo), Sub(hi, lo)}, i.Type()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		hi := Int(at.Len())
		if i.High != nil {
			hi = x.term(s, i.High)
		}
		x.mustHold(s, And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))), "slice bounds out of range", x.pos(i))
		lv := x.pointee(x.val(s, i.X), u.Elem())
		if lv.isWholeArray() {
			s.fr.env[i] = &VT{[]*Term{lv.Ref, lo, Sub(hi, lo)}, i.Type()}
			return
		}
		// slice of an embedded array: copied
		v := x.load(s, lv).(*VT)
		r := x.newRef(s)
		_, ks := x.elKeys(at.Elem())
		for j, k := range ks {
			s.heap[k] = Store(x.hget(s, k), r, v.L[j])
		}
		s.fr.env[i] = &VT{[]*Term{r, lo, Sub(hi, lo)}, i.Type()}
	}
}

func (x *Exec) unop(s *State, i *ssa.UnOp) {
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok && g.Name() == "init$guard" {
			s.fr.env[i] = vt(i.Type(), False) // a package is initialised once
			return
		}
		p := x.val(s, i.X)
		x.nilCheck(s, p, x.pos(i))
		et := i.X.Type().Underlying().(*types.Pointer).Elem()
		v := x.load(s, x.pointee(p, et))
		if w, ok := v.(*VT); ok {
			if _, isSl := et.Underlying().(*types.Slice); isSl {
				x.sliceNilWF(s, w, et)
			}
			if len(w.L) == 1 {
				if b, ok := x.boxes[w.L[0]]; ok {
					if _, isF := et.Underlying().(*types.Signature); isF {
						v = b
					}
				}
			}
		}
		s.fr.env[i] = v
	case token.NOT:
		s.fr.env[i] = vt(i.Type(), Not(x.term(s, i.X)))
	case token.SUB:
		s.fr.env[i] = vt(i.Type(), x.wrap(i.Type(), Neg(x.term(s, i.X))))
	case token.ARROW:
		if i.CommaOk {
			s.fr.env[i] = VTuple{x.freshVT(s, "recv", i.Type().(*types.Tuple).At(0).Type()), vt(types.Typ[types.Bool], Fresh("ok", SBool))}
		} else {
			s.fr.env[i] = x.freshVT(s, "recv", i.Type())
		}
		x.imprecise("channel receive")
	default:
		s.fr.env[i] = x.freshVT(s, "unop", i.Type())
		x.imprecise("unary " + i.Op.String())
	}
}

// wrap: unsigned arithmetic wraps; signed 64-bit arithmetic is treated as mathematical (recorded).
func (x *Exec) wrap(t types.Type, v *Term) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return v
	}
	if b.Info()&types.IsUnsigned == 0 && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt) {
		if v.K != KInt {
			x.trusted["machine arithmetic: signed 64-bit add/sub/mul treated as mathematical"] = true
		}
		return v
	}
	return wrapInt(t, v)
}

func (x *Exec) binop(s *State, op token.Token, a, b Val, ta, tb, tr types.Type, pos string) Val {
	// interface / pointer comparison with structured values
	if op == token.EQL || op == token.NEQ {
		eq := x.valEqTerm(s, a, b, ta, tb)
		if op == token.NEQ {
			eq = Not(eq)
		}
		return vt(tr, eq)
	}
	p, q := x.toVT(s, a, ta).L[0], x.toVT(s, b, tb).L[0]
	bt, _ := ta.Underlying().(*types.Basic)
	isStr := bt != nil && bt.Info()&types.IsString != 0
	if isFloat(ta) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return vt(tr, UF("float"+op.String(), SBool, p, q))
		}
		return vt(tr, UF("float"+op.String(), SInt, p, q))
	}
	switch op {
	case token.ADD:
		if isStr {
			return vt(tr, UF("strcat", SStr, p, q))
		}
		return vt(tr, wrapOnce(x, tr, Add(p, q), false))
	case token.SUB:
		return vt(tr, wrapOnce(x, tr, Sub(p, q), true))
	case token.MUL:
		return vt(tr, x.wrap(tr, Mul(p, q)))
	case token.QUO:
		x.mustHold(s, Ne(q, Int(0)), "division by zero", pos)
		return vt(tr, x.truncDiv(s, tr, p, q))
	case token.REM:
		x.mustHold(s, Ne(q, Int(0)), "division by zero", pos)
		if isUnsigned(tr) || q.K == KInt && q.I.Sign() > 0 && x.knownNonNeg(s, p) {
			return vt(tr, Mod(p, q))
		}
		return vt(tr, Sub(p, Mul(q, x.truncDiv(s, tr, p, q))))
	case token.LSS:
		if isStr {
			return vt(tr, UF("strlt", SBool, p, q))
		}
		return vt(tr, Lt(p, q))
	case token.LEQ:
		if isStr {
			return vt(tr, Not(UF("strlt", SBool, q, p)))
		}
		return vt(tr, Le(p, q))
	case token.GTR:
		if isStr {
			return vt(tr, UF("strlt", SBool, q, p))
		}
		return vt(tr, Lt(q, p))
	case token.GEQ:
		if isStr {
			return vt(tr, Not(UF("strlt", SBool, p, q)))
		}
		return vt(tr, Le(q, p))
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		if p.K == KInt && q.K == KInt {
			r := new(big.Int)
			switch op {
			case token.AND:
				return vt(tr, IntB(r.And(p.I, q.I)))
			case token.OR:
				return vt(tr, IntB(r.Or(p.I, q.I)))
			case token.XOR:
				return vt(tr, IntB(r.Xor(p.I, q.I)))
			case token.SHL:
				return vt(tr, wrapInt(tr, IntB(r.Lsh(p.I, uint(q.I.Int64())))))
			case token.SHR:
				return vt(tr, IntB(r.Rsh(p.I, uint(q.I.Int64()))))
			}
		}
		if op == token.SHL && q.K == KInt && q.I.Int64() < 512 {
			return vt(tr, wrapInt(tr, Mul(p, IntB(new(big.Int).Lsh(bigOne, uint(q.I.Int64()))))))
		}
		if op == token.SHR && q.K == KInt && q.I.Int64() < 512 {
			return vt(tr, Div(p, IntB(new(big.Int).Lsh(bigOne, uint(q.I.Int64())))))
		}
		if op == token.AND && q.K == KInt {
			m := new(big.Int).Add(q.I, bigOne)
			if m.BitLen() > 0 && new(big.Int).And(m, q.I).Sign() == 0 { // low mask
				return vt(tr, Mod(p, IntB(m)))
			}
		}
		return vt(tr, UF("bit"+op.String(), SInt, p, q))
	}
	panic(unsupported("binop " + op.String()))
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func (x *Exec) knownNonNeg(s *State, p *Term) bool {
	if p.K == KInt {
		return p.I.Sign() >= 0
	}
	return s.decide(Le(Int(0), p)) == True
}

func (x *Exec) truncDiv(s *State, t types.Type, p, q *Term) *Term {
	if isUnsigned(t) || (q.K == KInt && q.I.Sign() > 0 && x.knownNonNeg(s, p)) {
		return Div(p, q)
	}
	// truncated division
	return Ite(Ge(p, Int(0)), Ite(Gt(q, Int(0)), Div(p, q), Neg(Div(p, Neg(q)))),
		Ite(Gt(q, Int(0)), Neg(Div(Neg(p), q)), Div(Neg(p), Neg(q))))
}

func (x *Exec) valEqTerm(s *State, a, b Val, ta, tb types.Type) *Term {
	fa, okA := a.(*VIface)
	fb, okB := b.(*VIface)
	if okA && okB {
		if !types.Identical(fa.T, fb.T) {
			return False
		}
		return x.valEqTerm(s, fa.V, fb.V, fa.T, fb.T)
	}
	isNil := func(v Val) bool {
		w, ok := v.(*VT)
		return ok && w.L[0] == Int(0)
	}
	if okA && isNil(b) || okB && isNil(a) {
		return False
	}
	la, isLA := a.(*LV)
	lb, isLB := b.(*LV)
	if isLA && isNil(b) && la.Path != "" || isLB && isNil(a) && lb.Path != "" {
		return False
	}
	if isLA && isLB {
		if la.Kind == lb.Kind && la.Owner == lb.Owner && la.Path == lb.Path && la.ArrIdx == lb.ArrIdx {
			e := True
			if la.Kind >= 1 {
				e = Eq(la.Ref, lb.Ref)
			}
			if la.Kind == 2 && la.Idx != nil && lb.Idx != nil {
				e = And(e, Eq(la.Idx, lb.Idx))
			}
			return e
		}
		return False
	}
	p, q := x.toVT(s, a, ta), x.toVT(s, b, tb)
	if _, ok := ta.Underlying().(*types.Slice); ok {
		return Eq(p.L[0], q.L[0]) // only nil comparison is legal
	}
	if _, ok := ta.Underlying().(*types.Array); ok {
		return x.arrEq(p, q, ta)
	}
	var cs []*Term
	for i := range p.L {
		cs = append(cs, Eq(p.L[i], q.L[i]))
	}
	return And(cs...)
}

// arrays of scalars are compared by their content sequence
func (x *Exec) arrEq(p, q *VT, t types.Type) *Term {
	at := t.Underlying().(*types.Array)
	var cs []*Term
	for i := range p.L {
		if p.L[i].S == SInt && q.L[i].S == SInt {
			cs = append(cs, Eq(p.L[i], q.L[i]))
		} else if p.L[i].S == ArrS(SInt, SInt) && q.L[i].S == p.L[i].S {
			cs = append(cs, Eq(SeqStr(p.L[i], Int(0), Int(at.Len())), SeqStr(q.L[i], Int(0), Int(at.Len()))))
		} else {
			x.imprecise("array comparison " + t.String())
			cs = append(cs, UF("arreq"+sanitize(p.L[i].S), SBool, p.L[i], q.L[i], Int(at.Len())))
		}
	}
	return And(cs...)
}

func (x *Exec) convert(s *State, v Val, from, to types.Type) Val {
	w, ok := v.(*VT)
	if !ok {
		return v
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	if fIsB && tIsB {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return vt(to, convInt(from, to, w.L[0]))
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return vt(to, UF("runestr", SStr, w.L[0]))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return vt(to, w.L[0])
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return vt(to, w.L[0])
		case ti&types.IsFloat != 0:
			return vt(to, UF("tofloat", SInt, w.L[0]))
		case fi&types.IsFloat != 0:
			x.imprecise("float to integer conversion")
			return x.freshVT(s, "fconv", to)
		}
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if _, ok := tu.(*types.Slice); ok { // []byte(s)
			return x.bytesOf(s, w.L[0], to)
		}
	}
	if _, ok := fu.(*types.Slice); ok && tIsB && tb.Info()&types.IsString != 0 {
		return vt(to, x.seqStr(s, w))
	}
	if len(leavesOf(from)) == len(leavesOf(to)) {
		return &VT{w.L, to}
	}
	x.imprecise(fmt.Sprintf("conversion %s to %s", from, to))
	return x.freshVT(s, "conv", to)
}

// bytesOf builds a byte slice with the content of string t.
func (x *Exec) bytesOf(s *State, t *Term, sliceT types.Type) *VT {
	r := x.newRef(s)
	_, ks := x.elKeys(sliceT.Underlying().(*types.Slice).Elem())
	s.heap[ks[0]] = Store(x.hget(s, ks[0]), r, UF("strarr", ArrS(SInt, SInt), t))
	return &VT{[]*Term{r, Int(0), UF("strlen", SInt, t)}, sliceT}
}

// seqStr is the content of a byte slice as a string.
func (x *Exec) seqStr(s *State, w *VT) *Term {
	el := w.T.Underlying().(*types.Slice).Elem()
	_, ks := x.elKeys(el)
	a := Select(x.hget(s, ks[0]), w.L[0])
	return SeqStr(a, w.L[1], w.L[2])
}

func SeqStr(a, off, n *Term) *Term {
	if a.K == KApp && a.Op == "strarr" && off == Int(0) && n == UF("strlen", SInt, a.Args[0]) {
		return a.Args[0]
	}
	return UF("seqstr", SStr, a, off, n)
}

func convInt(from, to types.Type, v *Term) *Term {
	lo, hi, ok := intRange(from)
	lo2, hi2, ok2 := intRange(to)
	if ok && ok2 && lo.Cmp(lo2) >= 0 && hi.Cmp(hi2) <= 0 {
		return v
	}
	if ok && ok2 && v.K != KInt {
		sz, sz2 := new(big.Int).Sub(hi, lo), new(big.Int).Sub(hi2, lo2)
		if sz.Cmp(sz2) == 0 {
			w := new(big.Int).Add(sz, bigOne)
			if lo.Sign() == 0 {
				return Ite(Le(v, IntB(hi2)), v, Sub(v, IntB(w)))
			}
			return Ite(Le(Int(0), v), v, Add(v, IntB(w)))
		}
	}
	return wrapInt(to, v)
}

// wrapOnce: v is off by at most one period of the unsigned type t
func wrapOnce(x *Exec, t types.Type, v *Term, down bool) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 || v.K == KInt {
		return x.wrap(t, v)
	}
	_, hi, ok := intRange(t)
	if !ok {
		return x.wrap(t, v)
	}
	w := new(big.Int).Add(hi, bigOne)
	if down {
		return Ite(Le(Int(0), v), v, Add(v, IntB(w)))
	}
	return Ite(Le(v, IntB(hi)), v, Sub(v, IntB(w)))
}
