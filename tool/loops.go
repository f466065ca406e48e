package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// candidate loop invariant
type cand struct {
	name  string
	spec  bool
	mk    func(st *State) *Term // evaluated at the loop head state
	mkAsm func(st *State) *Term // form used when assumed (nil: mk)
	dead  bool
	key   string // name, made unique within the loop
}

type loopCtx struct {
	fi    *fnInfo
	li    *loopInfo
	name  string
	entry *State             // state at loop entry
	iter  *Term              // #i
	phis  []*ssa.Phi         // header phis
	ind   map[*ssa.Phi]*Term // step of induction variables
	iters []*VIter           // map iterators advanced in this loop's header
	keys  []string           // havocked heap keys
}

func (x *Exec) headPhis(fi *fnInfo, h *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if x.w.sinkOnly(fi, p) {
			continue
		}
		ps = append(ps, p)
	}
	return ps
}

// havocHead builds an arbitrary head state of the loop.
func (x *Exec) havocHead(lc *loopCtx, keys map[string]bool, ghosts map[string]bool) *State {
	st := lc.entry.clone()
	lc.iter = Fresh("iter", SInt)
	st.assume(Le(Int(0), lc.iter))
	al := Fresh("alloc", SInt)
	st.assume(Le(st.alloc, al))
	allocUp[al] = append(allocUp[al], st.alloc)
	st.alloc = al
	x.bumps = append(x.bumps, al)
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		st.heap[k] = x.freshHeap(k, al)
	}
	// everything else is closed at the new allocation counter as well
	for key, h := range st.heap {
		if !keys[key] {
			x.closeUnder(key, h, al)
		}
	}
	for key, hi := range heapInfo {
		if _, ok := st.heap[key]; !ok && x.wfDone["H."+key] {
			x.addHeapClosed(Var("H."+key, hi.s), hi, al)
		}
	}
	for g := range ghosts {
		if v, ok := st.ghost[g]; ok {
			st.ghost[g] = Fresh("g", v.S)
		}
	}
	for _, p := range lc.phis {
		ev := lc.entry.fr.env[p]
		var nv Val
		if step, ok := lc.ind[p]; ok {
			e := x.toVT(st, ev, p.Type())
			nv = vt(p.Type(), Add(e.L[0], Mul(step, lc.iter)))
		} else {
			switch ev.(type) {
			case *VIter, *VClosure:
				nv = ev
			default:
				nv = x.freshVT(st, "phi."+p.Comment, p.Type())
			}
		}
		st.fr.env[p] = nv
		if p.Comment != "" {
			st.fr.names[p.Comment] = nv
		}
	}
	return st
}

// runBody executes one iteration from head state st.
func (x *Exec) runBody(lc *loopCtx, st *State) *regionCtx {
	rc := &regionCtx{x: x, fi: lc.fi, in: lc.li.body, own: lc.li.head}
	rc.run(lc.li.head, []*State{st}, nil)
	return rc
}

func (x *Exec) execLoop(fi *fnInfo, li *loopInfo, entry *State) (map[*ssa.BasicBlock][]*State, []Outcome) {
	if entry.dead {
		return nil, nil
	}
	pos := ""
	for _, in := range li.head.Instrs {
		if p := x.pos(in); p != "" {
			pos = p
			break
		}
	}
	if pos == "" {
		for b := range li.body {
			for _, in := range b.Instrs {
				if p := x.pos(in); p != "" && (pos == "" || p < pos) {
					pos = p
				}
			}
		}
	}
	lc := &loopCtx{fi: fi, li: li, entry: entry, ind: map[*ssa.Phi]*Term{}, name: fi.fn.Name() + "@" + pos}
	lc.phis = x.headPhis(fi, li.head)
	for _, in := range li.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := entry.fr.env[n.Iter].(*VIter); ok && !it.IsStr {
				lc.iters = append(lc.iters, it)
			}
		}
	}
	// ---- discover modified heap keys and induction variables
	keys := map[string]bool{}
	ghosts := map[string]bool{}
	x.discovery++
	for round := 0; ; round++ {
		st := x.havocHead(lc, keys, ghosts)
		h0, g0 := st.heap, st.ghost
		base := map[string]*Term{}
		for k, v := range h0 {
			base[k] = v
		}
		gb := map[string]*Term{}
		for k, v := range g0 {
			gb[k] = v
		}
		ph := map[*ssa.Phi]Val{}
		for _, p := range lc.phis {
			ph[p] = st.fr.env[p]
		}
		rc := x.runBody(lc, st)
		grew := false
		cands := map[*ssa.Phi]*Term{}
		bad := map[*ssa.Phi]bool{}
		for _, b := range rc.back {
			for k, v := range b.heap {
				o, ok := base[k]
				if !ok {
					o = x.baseVar(k)
				}
				if v != o && !keys[k] {
					keys[k] = true
					grew = true
				}
			}
			for k, v := range b.ghost {
				if gb[k] != v && gb[k] != nil && !ghosts[k] {
					ghosts[k] = true
					grew = true
				}
			}
			for _, p := range lc.phis {
				w, ok := b.fr.env[p].(*VT)
				o, ok2 := ph[p].(*VT)
				if !ok || !ok2 || len(w.L) != 1 || w.L[0].S != SInt {
					bad[p] = true
					continue
				}
				d, isC := constDiff(w.L[0], o.L[0])
				if !isC || d.Sign() == 0 {
					bad[p] = true
					continue
				}
				if c, ok := cands[p]; ok && c.I.Cmp(d) != 0 {
					bad[p] = true
				}
				cands[p] = IntB(d)
			}
		}
		if round == 0 {
			for p, c := range cands {
				if !bad[p] {
					lc.ind[p] = c
					grew = true
				}
			}
		} else {
			for p := range lc.ind {
				if bad[p] {
					delete(lc.ind, p)
					grew = true
				}
			}
		}
		if !grew || round > 12 {
			break
		}
	}
	x.discovery--
	for k := range keys {
		lc.keys = append(lc.keys, k)
	}
	sort.Strings(lc.keys)
	if os.Getenv("GOVC_LOOPS") != "" && x.discovery == 0 {
		fmt.Fprintf(os.Stderr, "loop %s keys=%v ind=%d phis=%d\n", lc.name, lc.keys, len(lc.ind), len(lc.phis))
	}

	if x.discovery > 0 {
		// nested loop in a discovery pass: no invariants needed
		st := x.havocHead(lc, keys, ghosts)
		rc := x.runBody(lc, st)
		return rc.exit, rc.outs
	}

	x.loopDepth++
	defer func() { x.loopDepth-- }()
	cs := x.candidates(lc)
	// candidates that a previous run found not to be invariants are not tried (the rest is checked all the same)
	loopKey := x.loopKey(fi, li)
	seenName := map[string]int{}
	setKey := func(c *cand) {
		c.key = fmt.Sprintf("%s~%d", c.name, seenName[c.name])
		seenName[c.name]++
		if x.w.hintDrop(x.fnName(), loopKey, c.key) {
			c.dead = true
		}
	}
	for _, c := range cs {
		setKey(c)
	}
	// ---- initial check
	var try []*cand
	for _, c := range cs {
		if !c.dead {
			try = append(try, c)
		}
	}
	x.houdiniInit(lc, try)
	if x.dropped == nil {
		x.dropped = map[string]map[string]bool{}
	}
	snap := copyDropped(x.dropped)
	for iter := 0; ; iter++ {
		x.dropped = copyDropped(snap)
		st := x.havocHead(lc, keys, ghosts)
		st.ghost["#i"] = lc.iter
		var live []*cand
		for _, c := range cs {
			if c.dead {
				continue
			}
			live = append(live, c)
		}
		for _, c := range live {
			mk := c.mk
			if c.mkAsm != nil {
				mk = c.mkAsm
			}
			if t := mk(st); t != nil {
				st.assume(t)
			}
		}
		headSnap := st.clone()
		saved := x.obls
		x.obls = nil
		rc := x.runBody(lc, st)
		newObls := x.obls
		x.obls = saved
		// back-condition candidate (search loops)
		if iter == 0 {
			if c := x.backCondCand(lc, headSnap, rc); c != nil {
				setKey(c)
				cs = append(cs, c)
				if !c.dead {
					continue
				}
			}
		}
		failed := x.houdiniStep(lc, live, rc.back)
		if len(failed) > 0 && iter < 30 {
			for _, c := range failed {
				c.dead = true
				if c.spec || os.Getenv("GOVC_LOOPS") != "" {
					x.loopLog = append(x.loopLog, fmt.Sprintf("%s: candidate not inductive: %s", lc.name, c.name))
				}
			}
			continue
		}
		x.obls = append(x.obls, newObls...)
		dr := map[string]bool{}
		for _, c := range cs {
			if c.dead && (x.dropped[loopKey] == nil || x.dropped[loopKey][c.key]) {
				dr[c.key] = true
			}
		}
		x.dropped[loopKey] = dr
		x.stepChecks(lc, headSnap, rc)
		var names []string
		for _, c := range live {
			names = append(names, c.name)
		}
		x.loopN++
		x.loopLog = append(x.loopLog, fmt.Sprintf("%s: invariants: %s", lc.name, strings.Join(names, "; ")))
		for _, sts := range rc.exit {
			for _, e := range sts {
				delete(e.ghost, "#i")
				if o, ok := entry.ghost["#i"]; ok {
					e.ghost["#i"] = o
				}
			}
		}
		for _, o := range rc.outs {
			delete(o.st.ghost, "#i")
		}
		return rc.exit, rc.outs
	}
}

func (x *Exec) fnName() string {
	if x.spec != nil {
		return x.spec.Name
	}
	return x.fn.Name()
}

// loopKey identifies a loop by its function and its ordinal there (source positions change too easily)
func (x *Exec) loopKey(fi *fnInfo, li *loopInfo) string {
	n := 0
	for _, b := range fi.fn.Blocks {
		if b == li.head {
			break
		}
		if fi.loops[b] != nil {
			n++
		}
	}
	return fmt.Sprintf("%s#%d", x.w.shorten(fi.fn.String()), n)
}

func copyDropped(m map[string]map[string]bool) map[string]map[string]bool {
	r := make(map[string]map[string]bool, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// ---------------------------------------------------------------- candidates

func (x *Exec) candidates(lc *loopCtx) []*cand {
	var cs []*cand
	e := lc.entry
	// objects that existed at loop entry are unchanged / objects that existed at function entry are unchanged
	for _, k := range lc.keys {
		k := k
		hi := heapInfo[k]
		if hi.levels == 0 {
			continue
		}
		he := x.hget(e, k)
		mkFrame := func(limit *Term, hb *Term) func(st *State) *Term {
			return func(st *State) *Term {
				h := x.hget(st, k)
				if h == hb {
					return True
				}
				r := BoundVar("r", SInt)
				sel := app("select", arrElem(h.S), h, r)
				return Forall([]*Term{r}, Implies(Le(r, limit), Eq(sel, Select(hb, r))), []*Term{sel})
			}
		}
		cs = append(cs, &cand{name: "frame-loop " + k, mk: mkFrame(e.alloc, he)})
		if hf := x.hgetEntry(k); hf != he || x.alloc0 != e.alloc {
			cs = append(cs, &cand{name: "frame-fn " + k, mk: mkFrame(x.alloc0, hf)})
		}
		if x.ms != nil && !x.ms.any && !x.ms.all[k] && len(x.ms.keys[k]) > 0 && hi.levels == 2 {
			hf := x.hgetEntry(k)
			cs = append(cs, &cand{name: "frame-mod " + k, mk: func(st *State) *Term {
				h := x.hget(st, k)
				if h == hf {
					return True
				}
				r := BoundVar("r", SInt)
				old := And(Le(Int(0), r), Le(r, x.alloc0))
				row := app("select", arrElem(h.S), h, r)
				for _, e := range x.ms.keys[k] {
					if e.idx != nil {
						j := BoundVar("j", arrIdx(row.S))
						sel := app("select", arrElem(row.S), row, j)
						return Forall([]*Term{r, j}, Or(Not(old), memberT(x.ms.keys[k], r, j), Eq(sel, Select(Select(hf, r), j))), []*Term{sel})
					}
				}
				return Forall([]*Term{r}, Or(Not(old), memberT(x.ms.keys[k], r, nil), Eq(row, Select(hf, r))), []*Term{row})
			}})
		}
		// what the declared frame of the function allows
		if x.ms != nil && !x.ms.any && !x.ms.all[k] && len(x.ms.keys[k]) > 0 && hi.levels == 1 {
			hf := x.hgetEntry(k)
			cs = append(cs, &cand{name: "frame-mod " + k, mk: func(st *State) *Term {
				h := x.hget(st, k)
				if h == hf {
					return True
				}
				r := BoundVar("r", SInt)
				sel := app("select", arrElem(h.S), h, r)
				return Forall([]*Term{r}, Or(Not(And(Le(Int(0), r), Le(r, x.alloc0))), memberT(x.ms.keys[k], r, nil), Eq(sel, Select(hf, r))), []*Term{sel})
			}})
		}
	}
	// numbers reachable from local variables that the loop does not change
	for _, k := range lc.keys {
		if k != "Big" {
			continue
		}
		hb := x.hget(e, k)
		var vs []ssa.Value
		for v := range e.fr.env {
			if in, ok := v.(ssa.Instruction); ok && lc.li.body[in.Block()] {
				continue
			}
			if v.Type().String() == "*math/big.Int" {
				if w, ok := e.fr.env[v].(*VT); ok && len(w.L) == 1 {
					vs = append(vs, v)
				}
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			p := e.fr.env[v].(*VT).L[0]
			hv := e.read(hb, p)
			cs = append(cs, &cand{name: "big-const " + v.Name(), mk: func(st *State) *Term {
				return Eq(Select(x.hget(st, "Big"), p), hv)
			}})
		}
	}
	// local arrays the loop does not write
	for _, k := range lc.keys {
		if !strings.HasPrefix(k, "EL:") || heapInfo[k].levels != 2 {
			continue
		}
		k := k
		he := x.hget(e, k)
		var vs []ssa.Value
		for v := range e.fr.env {
			a, ok := v.(*ssa.Alloc)
			if !ok || lc.li.body[a.Block()] {
				continue
			}
			written := false
			for _, r := range *a.Referrers() {
				if !lc.li.body[r.Block()] {
					continue
				}
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					if _, dbg := r.(*ssa.DebugRef); dbg {
						continue
					}
					u, isLoad := r.(*ssa.UnOp)
					written = written || !isLoad || u.Op != token.MUL
					continue
				}
				for _, q := range *ia.Referrers() {
					if _, dbg := q.(*ssa.DebugRef); dbg {
						continue
					}
					if u, isLoad := q.(*ssa.UnOp); !isLoad || u.Op != token.MUL {
						written = true
					}
				}
			}
			if written {
				continue
			}
			if at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok || k != "EL:"+elName(at.Elem()) {
				continue
			}
			if w, ok := e.fr.env[v].(*VT); ok && len(w.L) == 1 {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			p := e.fr.env[v].(*VT).L[0]
			cs = append(cs, &cand{name: "array-const " + k + " " + v.Name(), mk: func(st *State) *Term {
				return Eq(Select(x.hget(st, k), p), Select(he, p))
			}})
		}
	}
	// visited keys belong to the map
	for _, it := range lc.iters {
		it := it
		cs = append(cs, &cand{name: "visited-subset", mk: func(st *State) *Term {
			b := BoundVar("k", mapKeySort(it.MT))
			v := Select(x.hget(st, it.Key), b)
			return Forall([]*Term{b}, Implies(v, Select(it.Dom0, b)), []*Term{v})
		}})
	}
	// bounds of index variables from the loop conditions
	cs = append(cs, x.boundCands(lc)...)
	// slices built by the loop: fresh backing arrays, offset unchanged
	for _, p := range lc.phis {
		p := p
		if _, isInd := lc.ind[p]; isInd {
			continue
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			ev, ok := e.fr.env[p].(*VT)
			if !ok {
				continue
			}
			get := func(st *State) *VT { w, _ := st.fr.env[p].(*VT); return w }
			cs = append(cs, &cand{name: "slice-off " + p.Comment, mk: func(st *State) *Term { return Eq(get(st).L[1], ev.L[1]) }})
			cs = append(cs, &cand{name: "slice-fresh " + p.Comment, mk: func(st *State) *Term {
				w := get(st)
				return Or(And(Eq(w.L[0], ev.L[0]), Eq(w.L[2], ev.L[2])), Lt(x.alloc0, w.L[0]))
			}})
			cs = append(cs, &cand{name: "slice-fresh-loop " + p.Comment, mk: func(st *State) *Term {
				w := get(st)
				return Or(And(Eq(w.L[0], ev.L[0]), Eq(w.L[2], ev.L[2])), Lt(e.alloc, w.L[0]))
			}})
			if len(lc.iters) == 0 {
				cs = append(cs, &cand{name: "slice-len=i " + p.Comment, mk: func(st *State) *Term { return Eq(get(st).L[2], Add(ev.L[2], lc.iter)) }})
			}
		} else if p.Type().String() == "*math/big.Int" {
			if ev, ok := e.fr.env[p].(*VT); ok && len(ev.L) == 1 {
				cs = append(cs, &cand{name: "ptr-const " + p.Comment, mk: func(st *State) *Term {
					w, ok := st.fr.env[p].(*VT)
					if !ok || len(w.L) != 1 {
						return nil
					}
					return Eq(w.L[0], ev.L[0])
				}})
			}
		} else if isBoolT(p.Type()) {
			ev, ok := e.fr.env[p].(*VT)
			if ok {
				cs = append(cs, &cand{name: "bool-const " + p.Comment, mk: func(st *State) *Term {
					w, ok := st.fr.env[p].(*VT)
					if !ok {
						return True
					}
					return Eq(w.L[0], ev.L[0])
				}})
			}
		}
	}
	// preconditions of the verified function that stay true, and its declared invariants
	for _, c := range x.specCands(lc) {
		cs = append(cs, c)
	}
	return cs
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Exec) hgetEntry(k string) *Term {
	if x.entry != nil {
		return x.hget(x.entry, k)
	}
	return x.baseVar(k)
}

// boundCands: for every header comparison t < n with t built from an induction variable,
// propose  t_phi <= n (and the shifted form for rangeindex loops).
func (x *Exec) boundCands(lc *loopCtx) []*cand {
	var cs []*cand
	var conds []*ssa.BinOp
	for b := range lc.li.body {
		for _, in := range b.Instrs {
			iff, ok := in.(*ssa.If)
			if !ok {
				continue
			}
			exits := false
			for _, s := range b.Succs {
				if !lc.li.body[s] {
					exits = true
				}
			}
			if !exits {
				continue
			}
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.NEQ, token.GTR, token.GEQ:
					conds = append(conds, bo)
				}
			}
		}
	}
	sort.Slice(conds, func(i, j int) bool { return conds[i].Pos() < conds[j].Pos() })
	for _, bo := range conds {
		for _, side := range []int{0, 1} {
			a, n := bo.X, bo.Y
			if side == 1 {
				a, n = n, a
			}
			off := int64(0)
			ph, ok := a.(*ssa.Phi)
			if !ok {
				if ad, ok2 := a.(*ssa.BinOp); ok2 && ad.Op == token.ADD {
					if p2, ok3 := ad.X.(*ssa.Phi); ok3 {
						if c, ok4 := ad.Y.(*ssa.Const); ok4 {
							ph, ok = p2, true
							off = c.Int64()
						}
					}
				}
			}
			if !ok || ph.Block() != lc.li.head || lc.ind[ph] == nil {
				continue
			}
			if in, isInstr := n.(ssa.Instruction); isInstr && lc.li.body[in.Block()] {
				continue
			}
			if _, isPhi := n.(*ssa.Phi); isPhi && lc.entry.fr.env[n] == nil {
				continue
			}
			if _, isC := n.(*ssa.Const); !isC && lc.entry.fr.env[n] == nil {
				continue
			}
			cs = append(cs, &cand{name: fmt.Sprintf("bound %s+%d<=%s", ph.Comment, off, n.Name()), mk: func(st *State) *Term {
				p := x.toVT(st, st.fr.env[ph], ph.Type()).L[0]
				return Le(Add(p, Int(off)), x.term(st, n))
			}})
		}
	}
	return cs
}

// backCondCand: every visited key satisfied the condition under which the loop goes on.
func (x *Exec) backCondCand(lc *loopCtx, head *State, rc *regionCtx) *cand {
	var key *Term
	var rng func(st *State, b *Term) *Term // visited predicate
	var ks Sort
	if len(lc.iters) == 1 {
		it := lc.iters[0]
		ks = mapKeySort(it.MT)
		for _, b := range rc.back {
			k := b.ghost["key:"+it.Key]
			if k == nil || key != nil && key != k {
				return nil
			}
			key = k
		}
		rng = func(st *State, b *Term) *Term { return Select(x.hget(st, it.Key), b) }
	} else if len(lc.iters) == 0 && len(lc.ind) > 0 {
		key = lc.iter
		ks = SInt
		rng = func(st *State, b *Term) *Term { return And(Le(Int(0), b), Lt(b, lc.iter)) }
	}
	if key == nil || len(rc.back) == 0 {
		return nil
	}
	headPC := map[*Term]bool{}
	for _, t := range head.pc {
		headPC[t] = true
	}
	okVar := func(t *Term) bool { return t == key || x.stableTerm(lc, head, t) }
	var alts []*Term
	for _, b := range rc.back {
		var cs []*Term
		for _, t := range b.pc {
			if headPC[t] {
				continue
			}
			if mentionsOnly(t, okVar) && mentions(t, key) {
				cs = append(cs, t)
			}
		}
		alts = append(alts, And(cs...))
	}
	body := Or(alts...)
	if body == True {
		return nil
	}
	return &cand{name: "back-condition", mk: func(st *State) *Term {
		b := BoundVar("k", ks)
		// lc.iter changes at every havoc: key is the iteration variable of the run that produced the body
		return Forall([]*Term{b}, Implies(rng(st, b), Subst(body, map[*Term]*Term{key: b})))
	}}
}

// stableTerm: a variable known before the loop (not havocked by it)
func (x *Exec) stableTerm(lc *loopCtx, head *State, t *Term) bool {
	return x.preVars(lc)[t]
}

func (x *Exec) preVars(lc *loopCtx) map[*Term]bool {
	m := map[*Term]bool{}
	var add func(t *Term)
	seen := map[*Term]bool{}
	add = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.K == KVar {
			m[t] = true
		}
		for _, a := range t.Args {
			add(a)
		}
	}
	for _, t := range lc.entry.pc {
		add(t)
	}
	for _, h := range lc.entry.heap {
		add(h)
	}
	add(lc.entry.alloc)
	for _, v := range lc.entry.fr.env {
		if w, ok := v.(*VT); ok {
			for _, t := range w.L {
				add(t)
			}
		}
	}
	for k, hi := range heapInfo {
		if _, ok := lc.entry.heap[k]; !ok {
			m[Var("H."+k, hi.s)] = true
		}
	}
	return m
}

func mentionsOnly(t *Term, ok func(*Term) bool) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if ok(t) {
			return true
		}
		if t.K == KVar {
			return false
		}
		if r, done := memo[t]; done {
			return r
		}
		memo[t] = true
		for _, a := range t.Args {
			if !rec(a) {
				memo[t] = false
				return false
			}
		}
		return true
	}
	return rec(t)
}

func mentions(t, k *Term) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == k {
			return true
		}
		if memo[t] {
			return false
		}
		memo[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---------------------------------------------------------------- Houdini

func (x *Exec) houdiniInit(lc *loopCtx, cs []*cand) {
	lc.iter = Int(0)
	e := lc.entry.clone()
	e.ghost["#i"] = Int(0)
	var jobs []*solveJob
	var who []*cand
	for _, c := range cs {
		t := c.mk(e)
		if t == nil {
			c.dead = true
			continue
		}
		if t == True {
			continue
		}
		jobs = append(jobs, prepare(&Query{Assume: e.pc, Goal: t}, x.candEffort(c)))
		who = append(who, c)
	}
	runCandJobs(jobs, who)
	for i, j := range jobs {
		if j.res.Status != "unsat" {
			who[i].dead = true
			if who[i].spec || os.Getenv("GOVC_LOOPS") != "" {
				if d := os.Getenv("GOVC_DUMPFAIL"); d != "" && strings.Contains(who[i].name, d) {
					os.WriteFile("/tmp/failinit.smt2", []byte("; "+who[i].name+"\n"+j.text), 0644)
				}
				x.loopLog = append(x.loopLog, fmt.Sprintf("%s: candidate does not hold initially: %s", lc.name, who[i].name))
			}
		}
	}
}

func (x *Exec) candEffort(c *cand) int { return 0 }

// runCandJobs: quick attempts; declared invariants and those that involve products get the portfolio as well
func runCandJobs(js []*solveJob, spec []*cand) {
	runJobs(js)
	var again []*solveJob
	var at []int
	for i, j := range js {
		if j.res.Status == "unknown" && (spec[i].spec || mentionsOp(j.q.Goal, "bmul", "bdiv", "bmod")) {
			k := prepare(j.q, 1)
			again = append(again, k)
			at = append(at, i)
		}
	}
	runJobs(again)
	for i, k := range again {
		js[at[i]] = k
	}
}

func mentionsOp(t *Term, ops ...string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.K == KApp {
			for _, o := range ops {
				if t.Op == o {
					return true
				}
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (x *Exec) houdiniStep(lc *loopCtx, live []*cand, back []*State) []*cand {
	saveIter := lc.iter
	lc.iter = Add(lc.iter, Int(1))
	defer func() { lc.iter = saveIter }()
	var jobs []*solveJob
	var who []*cand
	fail := map[*cand]bool{}
	for _, b := range back {
		if b.dead {
			continue
		}
		b.ghost["#i"] = lc.iter
		for _, c := range live {
			if fail[c] {
				continue
			}
			t := c.mk(b)
			if t == nil {
				fail[c] = true
				continue
			}
			if t == True {
				continue
			}
			jobs = append(jobs, prepare(&Query{Assume: b.pc, Goal: t}, x.candEffort(c)))
			who = append(who, c)
		}
	}
	runCandJobs(jobs, who)
	// candidates refuted without running out of time go first: the rest may only have been slowed down by them
	soft, hard := 0, 0
	for i, j := range jobs {
		if j.res.Status != "unsat" && !fail[who[i]] {
			if j.timedOut() {
				soft++
			} else {
				hard++
			}
		}
	}
	for i, j := range jobs {
		if d := os.Getenv("GOVC_DUMPFAIL"); d != "" && j.res.Status != "unsat" && strings.Contains(who[i].name, d) {
			nDump++
			os.WriteFile(fmt.Sprintf("/tmp/fail%d.smt2", nDump), []byte("; "+who[i].name+"\n"+j.text), 0644)
			os.WriteFile(fmt.Sprintf("/tmp/fail%d.lean.smt2", nDump), []byte(j.text0), 0644)
		}
		if j.res.Status != "unsat" && hard > 0 && j.timedOut() {
			continue
		}
		if j.res.Status != "unsat" {
			fail[who[i]] = true
		}
	}
	var out []*cand
	for _, c := range live {
		if fail[c] {
			out = append(out, c)
		}
	}
	return out
}

var nDump int
