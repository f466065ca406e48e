package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bigIntT = big.Int

// ---------------------------------------------------------------- splitting formulas into pieces

func hasCall(e *Expr, name string) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" && e.Name == name {
		return true
	}
	for _, a := range e.Args {
		if hasCall(a, name) {
			return true
		}
	}
	return false
}

func (w *World) split(e *Expr) []*Expr {
	one := []*Expr{e}
	mapE := func(ps []*Expr, f func(p *Expr) *Expr) []*Expr {
		if len(ps) == 1 {
			return nil
		}
		var out []*Expr
		for _, p := range ps {
			out = append(out, f(p))
		}
		return out
	}
	switch e.Op {
	case "bin":
		if e.Name == "&&" {
			return append(w.split(e.Args[0]), w.split(e.Args[1])...)
		}
		if e.Name == "==>" {
			if r := mapE(w.split(e.Args[1]), func(p *Expr) *Expr { return bin("==>", e.Args[0], p) }); r != nil {
				return r
			}
		}
	case "call":
		if m, ok := w.db.Macros[e.Name]; ok && len(m.Params) == len(e.Args) {
			b := m.Body
			ps := w.split(b)
			if len(ps) == 1 {
				return one
			}
			var out []*Expr
			for _, p := range ps {
				// arguments are evaluated once, outside the macro body
				q := p
				for i := len(m.Params) - 1; i >= 0; i-- {
					q = &Expr{Op: "let", Name: m.Params[i] + "", Args: []*Expr{{Op: "id", Name: fmt.Sprintf("%s'%d", m.Params[i], i)}, q}}
				}
				for i := len(m.Params) - 1; i >= 0; i-- {
					q = &Expr{Op: "let", Name: fmt.Sprintf("%s'%d", m.Params[i], i), Args: []*Expr{e.Args[i], q}}
				}
				out = append(out, q)
			}
			return out
		}
	case "let":
		if r := mapE(w.split(e.Args[1]), func(p *Expr) *Expr {
			return &Expr{Op: "let", Name: e.Name, Args: []*Expr{e.Args[0], p}}
		}); r != nil {
			return r
		}
	case "forall":
		if r := mapE(w.split(e.Args[0]), func(p *Expr) *Expr { return &Expr{Op: "forall", B: e.B, Args: []*Expr{p}} }); r != nil {
			return r
		}
	}
	return one
}

func (w *World) pieces(c *Clause) []*Expr {
	if p, ok := w.pieceCache[c]; ok {
		return p
	}
	p := w.split(c.E)
	w.pieceCache[c] = p
	return p
}

func (x *Exec) relevant(c *Clause) bool { return c.forProp(x.w.prop) }

// ---------------------------------------------------------------- modifies clauses

type modEntry struct {
	vs  []*Term
	g   *Term
	ref *Term // nil: global
	idx *Term // single element / key
}
type modset struct {
	keys map[string][]modEntry
	all  map[string]bool
	any  bool
}

func (m *modset) add(k string, e modEntry) { m.keys[k] = append(m.keys[k], e) }

func (c *sctx) modset(sp *FuncSpec) *modset {
	ms := &modset{keys: map[string][]modEntry{}, all: map[string]bool{}}
	for _, cl := range sp.Clauses {
		if cl.Kind != "modifies" || !c.x.relevant(cl) {
			continue
		}
		for _, t := range cl.Mods {
			c.modTarget(ms, t)
		}
	}
	return ms
}

func (c *sctx) modTarget(ms *modset, t *ModTarget) {
	x := c.x
	if t.Any {
		ms.any = true
		return
	}
	if t.All != "" {
		ms.all[t.All] = true
		return
	}
	n, vs, g := c, []*Term(nil), True
	if len(t.B) > 0 {
		n, vs, g = c.bind(t.B)
	}
	e := t.E
	if t.Big {
		x.regBig()
		ms.add("Big", modEntry{vs, g, n.vt(n.eval(e)).L[0], nil})
		return
	}
	switch e.Op {
	case "[*]":
		b := n.eval(e.Args[0])
		switch u := b.T.Underlying().(type) {
		case *types.Map:
			d, _, vks := x.mapKeys(u)
			r := n.term(b)
			ms.add(d, modEntry{vs, g, r, nil})
			for _, k := range vks {
				ms.add(k, modEntry{vs, g, r, nil})
			}
		case *types.Slice:
			_, ks := x.elKeys(u.Elem())
			r := n.vt(b).L[0]
			for _, k := range ks {
				ms.add(k, modEntry{vs, g, r, nil})
			}
		case *types.Pointer:
			lv := x.pointee(b.V, u.Elem())
			_, ks := x.lvKeys(lv)
			for _, k := range ks {
				ms.add(k, modEntry{vs, g, lv.Ref, nil})
			}
		default:
			c.fail("modifies %s", exprStr(e))
		}
		return
	case "[]":
		b := n.eval(e.Args[0])
		if u, ok := b.T.Underlying().(*types.Map); ok {
			d, _, vks := x.mapKeys(u)
			r := n.term(b)
			k := n.term(n.eval(e.Args[1]))
			for _, kk := range append([]string{d}, vks...) {
				ms.add(kk, modEntry{vs, g, r, k})
			}
			return
		}
	}
	lv, _ := n.lval(e)
	if lv == nil {
		c.fail("modifies: %s is not a location", exprStr(e))
	}
	_, ks := x.lvKeys(lv)
	for _, k := range ks {
		switch lv.Kind {
		case 0:
			ms.add(k, modEntry{})
		case 1:
			ms.add(k, modEntry{vs, g, lv.Ref, nil})
		case 2:
			ms.add(k, modEntry{vs, g, lv.Ref, lv.Idx})
		}
	}
}

// memberT: location (r, k) is in the list; k==nil: some part of r may change
func memberT(es []modEntry, r, k *Term) *Term {
	var cs []*Term
	for _, e := range es {
		m := Eq(r, e.ref)
		if e.idx != nil && k != nil {
			m = And(m, Eq(k, e.idx))
		}
		if len(e.vs) > 0 {
			m = Exists(e.vs, And(e.g, m))
		}
		cs = append(cs, m)
	}
	return Or(cs...)
}

// ---------------------------------------------------------------- calls

func sigTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func bindParams(sp *FuncSpec, args []Val, sig *types.Signature) map[string]SV {
	ts := sigTypes(sig)
	if len(ts) > len(args) && sig.Recv() != nil {
		ts = ts[1:]
	}
	vars := map[string]SV{}
	if len(sp.Params) > len(args) {
		panic(specErr(fmt.Sprintf("%s: contract has %d parameters, the function has %d", sp.Name, len(sp.Params), len(args))))
	}
	for i, n := range sp.Params {
		if n == "_" {
			continue
		}
		vars[n] = SV{args[i], ts[i]}
	}
	return vars
}

func (x *Exec) applyContract(s *State, sp *FuncSpec, args []Val, sig *types.Signature, in ssa.Instruction) []callRes {
	pos := x.pos(in)
	x.used[sp.Name] = true
	if sp.Trusted {
		x.trusted["contract of "+sp.Name+" (assumed)"] = true
	}
	vars := bindParams(sp, args, sig)
	for i := range sp.Params {
		// closures and interior pointers keep their identity; make references concrete once
		_ = i
	}
	ctx := &sctx{x: x, st: s, old: s, vars: vars, src: sp.Name}
	for _, cl := range sp.Clauses {
		if cl.Kind != "requires" || !x.relevant(cl) {
			continue
		}
		if x.assumesCallees() {
			x.trusted["preconditions of "+sp.Name+" at its call in "+x.spec.Name+" (assumed)"] = true
			continue
		}
		for i, p := range x.w.pieces(cl) {
			n := *ctx
			n.src = sp.Name + " requires"
			x.oblige(s, "requires", fmt.Sprintf("%s: %s/%d: %s", sp.Name, cl.Label, i, exprStr(p)), n.boolE(p), pos)
		}
	}
	if x.aborts && !sp.NoAbort && !sp.Trusted {
		x.oblige(s, "noabort", "call of "+sp.Name+" whose contract does not exclude an abort", False, pos)
	}
	pre := s.clone()
	ctx.old = pre
	post := s
	ctx.st = pre
	ms := ctx.modset(sp)
	scalar := true
	for i := 0; i < sig.Results().Len(); i++ {
		for _, l := range leavesOf(sig.Results().At(i).Type()) {
			if isRefType(l.T) && types.TypeString(l.T, nil) != "error" || strings.HasSuffix(l.Path, "#ref") {
				scalar = false
			}
		}
	}
	if !sp.Pure || !scalar {
		x.bumpAlloc(post)
	}
	x.havoc(post, pre, ms)
	ctx.st = post
	ctx.asm = true
	// results
	rvars := map[string]SV{}
	defd := map[string]*Expr{}
	for i := 0; i < sig.Results().Len() && i < len(sp.Results); i++ {
		rn := sp.Results[i]
		for _, cl := range sp.Clauses {
			if cl.Kind != "ensures" || !x.relevant(cl) {
				continue
			}
			for _, p := range x.w.pieces(cl) {
				if p.Op == "bin" && p.Name == "==" && p.Args[0].Op == "id" && p.Args[0].Name == rn && defd[rn] == nil && !mentionsAny(p.Args[1], sp.Results) {
					defd[rn] = p.Args[1]
				}
			}
		}
	}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var v Val
		if i < len(sp.Results) {
			if d := defd[sp.Results[i]]; d != nil && len(leavesOf(t)) == 1 {
				ctx2 := *ctx
				ctx2.vars = vars
				dv := ctx2.eval(d)
				if w := ctx2.vt(dv); len(w.L) == 1 && w.L[0].S == leavesOf(t)[0].S {
					v = vt(t, w.L[0])
					post.assume(leafWF(leavesOf(t)[0], w.L[0], nil))
				}
			}
		}
		if v == nil {
			v = x.freshVT(post, "res."+shortName(sp.Name), t)
		}
		rs = append(rs, v)
		if i < len(sp.Results) {
			rvars[sp.Results[i]] = SV{v, t}
		}
	}
	ev := map[string]SV{}
	for k, v := range vars {
		ev[k] = v
	}
	for k, v := range rvars {
		ev[k] = v
	}
	ctx.vars = ev
	for _, cl := range sp.Clauses {
		if cl.Kind != "ensures" || !x.relevant(cl) {
			continue
		}
		for _, p := range x.w.pieces(cl) {
			n := *ctx
			n.src = sp.Name + " ensures"
			post.assume(n.boolE(p))
		}
	}
	if post.dead {
		return nil
	}
	return one(post, resTuple(rs))
}

func shortName(n string) string {
	if i := strings.LastIndexAny(n, "./"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func mentionsAny(e *Expr, names []string) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" {
		for _, n := range names {
			if e.Name == n {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if mentionsAny(a, names) {
			return true
		}
	}
	return false
}

// havoc replaces the locations of a modifies clause by arbitrary values (post.alloc is already bumped).
func (x *Exec) havoc(post, pre *State, ms *modset) {
	if ms.any {
		for k := range heapInfo {
			if !strings.HasPrefix(k, "IT:") {
				post.heap[k] = x.freshHeap(k, post.alloc)
			}
		}
		return
	}
	var ks []string
	for k := range ms.keys {
		ks = append(ks, k)
	}
	for k := range ms.all {
		if _, dup := ms.keys[k]; !dup {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		hi, ok := heapInfo[k]
		if !ok {
			if ms.all[k] {
				continue // component never touched here; its base variable is created on demand, so register a fresh one lazily
			}
			panic("havoc of unknown key " + k)
		}
		h0 := x.hget(pre, k)
		if ms.all[k] || hi.levels == 0 {
			post.heap[k] = x.freshHeap(k, post.alloc)
			continue
		}
		es := ms.keys[k]
		simple := true
		for _, e := range es {
			if len(e.vs) > 0 || (hi.levels == 2 && e.idx == nil) {
				simple = false
			}
		}
		if simple {
			h := h0
			for _, e := range es {
				if hi.levels == 1 {
					v := Fresh("mod."+k, arrElem(h.S))
					x.wfLeafFresh(post, hi.leaf, v)
					h = Store(h, e.ref, v)
				} else {
					in := Select(h, e.ref)
					v := Fresh("mod."+k, arrElem(in.S))
					x.wfLeafFresh(post, hi.leaf, v)
					h = Store(h, e.ref, Store(in, e.idx, v))
				}
			}
			post.heap[k] = h
			continue
		}
		h := x.freshHeap(k, post.alloc)
		post.heap[k] = h
		r := BoundVar("r", SInt)
		sel := app("select", arrElem(h.S), h, r)
		allIdx := hi.levels == 2
		for _, e := range es {
			if e.idx == nil {
				allIdx = false
			}
		}
		post.assume(Forall([]*Term{r}, Or(memberT(es, r, nil), Eq(sel, Select(h0, r))), []*Term{sel}))
		if allIdx || hi.levels == 2 {
			hasIdx := false
			for _, e := range es {
				if e.idx != nil {
					hasIdx = true
				}
			}
			if hasIdx {
				j := BoundVar("j", arrIdx(arrElem(h.S)))
				s2 := app("select", arrElem(arrElem(h.S)), sel, j)
				post.assume(Forall([]*Term{r, j}, Or(memberT(es, r, j), Eq(s2, Select(Select(h0, r), j))), []*Term{s2}))
			}
		}
	}
}

func (x *Exec) wfLeafFresh(st *State, l Leaf, v *Term) {
	if v.S == SInt {
		st.assume(leafWF(l, v, st.alloc))
		noteRef(l, v, st.alloc)
		return
	}
	if at, ok := l.T.Underlying().(*types.Array); ok && v.S == ArrS(SInt, SInt) {
		i := BoundVar("i", SInt)
		el := app("select", SInt, v, i)
		if w := leafWF(Leaf{"", SInt, at.Elem()}, el, nil); w != True {
			addAxiom(v.Op, Forall([]*Term{i}, w, []*Term{el}))
		}
	}
}

// ---------------------------------------------------------------- frame obligations

func (x *Exec) checkFrame(o *State, ms *modset) {
	if ms.any {
		return
	}
	var ks []string
	for k := range o.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "IT:") || ms.all[k] {
			continue
		}
		h0, h1 := x.hget(x.entry, k), o.heap[k]
		if h0 == h1 {
			continue
		}
		hi := heapInfo[k]
		if hi.levels == 0 {
			if len(ms.keys[k]) == 0 {
				x.oblige(o, "frame", "unchanged "+k, Eq(h1, h0), "")
			}
			continue
		}
		es := ms.keys[k]
		r := Fresh("fr", SInt)
		o2 := o.clone()
		o2.assume(Le(Int(0), r))
		o2.assume(Le(r, x.alloc0))
		s0, s1 := Select(h0, r), selThrough(h1, r)
		if hi.levels == 2 {
			j := Fresh("fk", arrIdx(arrElem(h0.S)))
			x.oblige(o2, "frame", "unchanged "+k, Or(memberT(es, r, j), Eq(Select(s1, j), Select(s0, j))), "")
			continue
		}
		x.oblige(o2, "frame", "unchanged "+k, Or(memberT(es, r, nil), Eq(s1, s0)), "")
	}
}

func selThrough(h, r *Term) *Term { return Select(h, r) }

// ---------------------------------------------------------------- loop invariants from contracts

func (x *Exec) paramVars() map[string]SV { return x.pvars }

func (x *Exec) specCands(lc *loopCtx) []*cand {
	if x.spec == nil {
		return nil
	}
	var cs []*cand
	add := func(name string, e *Expr, extra func(st *State) map[string]SV) {
		mk := func(asm bool) func(st *State) *Term {
			return func(st *State) (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); ok {
							t = nil
							return
						}
						panic(r)
					}
				}()
				vars := map[string]SV{}
				for k, v := range x.pvars {
					vars[k] = v
				}
				if extra != nil {
					m := extra(st)
					if m == nil {
						return nil
					}
					for k, v := range m {
						vars[k] = v
					}
				}
				c := &sctx{x: x, st: st, old: x.entry, pre: lc.entry, lc: lc, vars: vars, asm: asm, src: "inv"}
				return c.boolE(e)
			}
		}
		cs = append(cs, &cand{name: name, spec: true, mk: mk(false), mkAsm: mk(true)})
	}
	for _, cl := range x.spec.Clauses {
		if !x.relevant(cl) {
			continue
		}
		switch cl.Kind {
		case "requires":
			for _, p := range x.w.pieces(cl) {
				add("requires "+exprStr(p), p, nil)
			}
		case "inv":
			if cl.Over != nil && !x.loopOver(lc, cl) {
				continue
			}
			if cl.Var == "" {
				for _, p := range x.w.pieces(cl) {
					add("inv "+cl.Label+" "+exprStr(p), p, nil)
				}
				continue
			}
			combos := [][]localVar{nil}
			for i, typ := range append([]string{cl.Type}, cl.MoreTypes...) {
				ls := x.localsOf(lc, typ)
				var next [][]localVar
				for _, c := range combos {
				l:
					for _, l := range ls {
						for j := 0; j < i; j++ {
							if c[j].name == l.name {
								continue l
							}
						}
						next = append(next, append(append([]localVar{}, c...), l))
					}
				}
				combos = next
			}
			if len(combos) > 120 {
				combos = combos[:120]
			}
			names := append([]string{cl.Var}, cl.MoreVars...)
			for _, combo := range combos {
				combo := combo
				var ns []string
				for _, l := range combo {
					ns = append(ns, l.name)
				}
				for _, p := range x.w.pieces(cl) {
					add("inv "+cl.Label+"["+strings.Join(ns, ",")+"] "+exprStr(p), p, func(st *State) map[string]SV {
						m := map[string]SV{}
						for i, l := range combo {
							v := l.get(st)
							if v == nil {
								return nil
							}
							m[names[i]] = SV{v, l.t}
						}
						return m
					})
				}
			}
		}
	}
	return cs
}

// loopOver: may the loop iterate over the slice or map the clause names? (only used to leave out
// candidates that would be dropped anyway)
func (x *Exec) loopOver(lc *loopCtx, cl *Clause) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); !is {
				panic(r)
			}
			ok = true
		}
	}()
	c := &sctx{x: x, st: lc.entry, old: x.entry, vars: x.pvars, asm: true, src: "over"}
	sv := c.eval(cl.Over)
	switch sv.T.Underlying().(type) {
	case *types.Map:
		if len(lc.iters) == 0 {
			return false
		}
		for _, it := range lc.iters {
			if it.M == c.term(sv) {
				return true
			}
		}
		return false
	case *types.Slice:
		if len(lc.iters) > 0 {
			return false
		}
		n := x.lenOf(lc.entry, sv.V, sv.T)
		for b := range lc.li.body {
			for _, in := range b.Instrs {
				bo, is := in.(*ssa.BinOp)
				if !is || b != lc.li.head {
					continue
				}
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if _, isPhi := v.(*ssa.Phi); isPhi {
						continue
					}
					if vi, isI := v.(ssa.Instruction); isI && lc.li.body[vi.Block()] {
						if _, isB := v.(*ssa.BinOp); !isB {
							return true // computed in the loop: unknown
						}
						continue
					}
					if lc.entry.fr.env[v] != nil && isIntT(v.Type()) && x.term(lc.entry, v) == n {
						return true
					}
				}
			}
		}
		return false
	}
	return true
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

type localVar struct {
	name string
	t    types.Type
	get  func(st *State) Val
}

// localsOf: program variables of the loop's frame of the given type (independent of their names)
func (x *Exec) localsOf(lc *loopCtx, typ string) []localVar {
	var out []localVar
	seen := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		t := v.Type()
		if shortType(t) == typ {
			out = append(out, localVar{v.Name(), t, func(st *State) Val {
				if c, ok := v.(*ssa.Const); ok {
					return x.constVal(c)
				}
				return st.fr.env[v]
			}})
			return
		}
		if _, isAlloc := v.(*ssa.Alloc); isAlloc {
			if pt, ok := t.Underlying().(*types.Pointer); ok && shortType(pt.Elem()) == typ {
				out = append(out, localVar{"*" + v.Name(), pt.Elem(), func(st *State) Val {
					p := st.fr.env[v]
					if p == nil {
						return nil
					}
					return x.load(st, x.pointee(p, pt.Elem()))
				}})
			}
		}
	}
	for _, p := range lc.phis {
		add(p)
	}
	var vs []ssa.Value
	for v := range lc.entry.fr.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Name() != vs[j].Name() {
			return vs[i].Name() < vs[j].Name()
		}
		return vs[i].Pos() < vs[j].Pos()
	})
	for _, v := range vs {
		add(v)
	}
	// the map being iterated over, which need not be live any more
	for _, it := range lc.iters {
		if shortType(it.MT) != typ {
			continue
		}
		have := false
		for _, l := range out {
			if w, ok := l.get(lc.entry).(*VT); ok && w.L[0] == it.M {
				have = true
			}
		}
		if !have {
			w := vt(it.MT, it.M)
			out = append(out, localVar{"ranged", it.MT, func(st *State) Val { return w }})
		}
	}
	return out
}

// ---------------------------------------------------------------- step relations

func (x *Exec) stepClauses() []*Clause {
	var out []*Clause
	if x.spec == nil {
		return nil
	}
	for _, cl := range x.spec.Clauses {
		if cl.Kind == "step" && x.relevant(cl) {
			out = append(out, cl)
		}
	}
	return out
}

func (x *Exec) stepOver(cl *Clause) (SV, *types.Slice, *Term) {
	c := &sctx{x: x, st: x.entry, old: x.entry, vars: x.pvars, src: "step over"}
	sv := c.eval(cl.Over)
	u, ok := sv.T.Underlying().(*types.Slice)
	if !ok {
		panic(specErr("step over a non-slice"))
	}
	return sv, u, c.vt(sv).L[2]
}

func (x *Exec) stepKeys(lc *loopCtx) []string {
	var out []string
	for _, k := range lc.keys {
		if !strings.HasPrefix(k, "IT:") && !strings.HasPrefix(k, "C:") {
			out = append(out, k)
		}
	}
	return out
}

func (x *Exec) sameOld(st *State, kind, label string, k string, h0, h1 *Term) {
	if h0 == h1 {
		return
	}
	if heapInfo[k].levels == 0 {
		x.oblige(st, kind, label+" "+k, Eq(h0, h1), "")
		return
	}
	r := Fresh("fr", SInt)
	s2 := st.clone()
	s2.assume(Le(Int(0), r))
	s2.assume(Le(r, x.alloc0))
	x.oblige(s2, kind, label+" "+k, Eq(Select(h0, r), Select(h1, r)), "")
}

// modifiesOld: the loop changes objects that existed when the verified function was entered
func (x *Exec) modifiesOld(lc *loopCtx, head *State, rc *regionCtx) bool {
	for _, k := range x.stepKeys(lc) {
		hh := x.hget(head, k)
		hi := heapInfo[k]
		for _, b := range rc.back {
			hb := x.hget(b, k)
			if hb == hh {
				continue
			}
			if hi.levels == 0 {
				return true
			}
			r := Fresh("fr", SInt)
			q := &Query{Assume: append(append([]*Term{}, b.pc...), Le(Int(0), r), Le(r, x.alloc0)), Goal: Eq(Select(hb, r), Select(hh, r))}
			if solve(q, 0).Status != "unsat" {
				return true
			}
		}
	}
	return false
}

func (x *Exec) stepChecks(lc *loopCtx, head *State, rc *regionCtx) {
	cls := x.stepClauses()
	if len(cls) == 0 || x.inStep > 0 {
		return
	}
	if x.loopDepth > 1 || !x.modifiesOld(lc, head, rc) {
		return
	}
	for ci, cl := range cls {
		sv, u, n := x.stepOver(cl)
		gk := fmt.Sprintf("step!n%d", ci)
		x.stepSeen[cl.Label]++
		// entered from the function's entry state
		if g, ok := lc.entry.ghost[gk]; ok {
			x.oblige(lc.entry, "step", cl.Label+": the processing loop is entered once", Eq(g, Int(0)), lc.name)
		}
		for _, k := range x.stepKeys(lc) {
			x.sameOld(lc.entry, "step", cl.Label+": unchanged before the loop:", k, x.hgetEntry(k), x.hget(lc.entry, k))
		}
		for _, b := range rc.back {
			if b.dead {
				continue
			}
			ec := &sctx{x: x, st: x.entry, old: x.entry, vars: x.pvars, src: "step"}
			elem := x.sliceElem(x.entry, ec.vt(sv), u.Elem(), lc.iter)
			vars := map[string]SV{"elem": {elem, u.Elem()}}
			for k, v := range x.pvars {
				vars[k] = v
			}
			c := &sctx{x: x, st: b, old: head, pre: x.entry, lc: lc, vars: vars, src: "step " + cl.Label}
			for i, p := range x.w.split(cl.E) {
				s2 := b.clone()
				s2.assume(Lt(lc.iter, n))
				x.oblige(s2, "step", fmt.Sprintf("%s/%d: %s", cl.Label, i, exprStr(p)), c.boolE(p), lc.name)
			}
			x.oblige(b, "step", cl.Label+": iteration has an element", Lt(lc.iter, n), lc.name)
		}
		for _, sts := range rc.exit {
			for _, e := range sts {
				if e.dead {
					continue
				}
				x.oblige(e, "step", cl.Label+": every element is processed", Eq(lc.iter, n), lc.name)
				for _, k := range x.stepKeys(lc) {
					x.sameOld(e, "step", cl.Label+": unchanged since the last element:", k, x.hget(head, k), x.hget(e, k))
				}
				e.ghost[gk] = Int(1)
				for _, k := range x.stepKeys(lc) {
					e.ghost["step!h"+k] = x.hget(e, k)
				}
			}
		}
		for _, o := range rc.outs {
			x.oblige(o.st, "step", cl.Label+": return in the middle of the processing loop", False, lc.name)
		}
	}
}

func (x *Exec) stepOutcome(o *State) {
	for ci, cl := range x.stepClauses() {
		_, _, n := x.stepOver(cl)
		g := o.ghost[fmt.Sprintf("step!n%d", ci)]
		if g == nil {
			g = Int(0)
		}
		x.oblige(o, "step", cl.Label+": all elements processed on return", Or(Eq(g, Int(1)), Eq(n, Int(0))), "")
		var ks []string
		for k := range o.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "C:") {
				continue
			}
			h := o.ghost["step!h"+k]
			if h == nil {
				h = x.hgetEntry(k)
			}
			x.sameOld(o, "step", cl.Label+": unchanged after the loop:", k, h, x.hget(o, k))
		}
	}
}

// assumesCallees: the contract of the function says that this property takes the preconditions of its callees for granted
func (x *Exec) assumesCallees() bool {
	for _, p := range x.spec.Unchecked {
		if p == x.w.prop {
			return true
		}
	}
	return false
}
