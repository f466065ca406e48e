package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Val interface{}

// VT is a first-class value given by its leaves.
type VT struct {
	L []*Term
	T types.Type
}

// LV is an lvalue (interior pointer or pointer to a known object).
type LV struct {
	Kind   int // 0 global, 1 object field, 2 slice/array element
	Ref    *Term
	Idx    *Term // absolute element index (kind 2)
	Owner  string
	Path   string
	T      types.Type // type of the designated variable
	ArrIdx *Term      // index inside an embedded array leaf (T is the element type)
	ArrT   types.Type
}

type VClosure struct {
	Fn    *ssa.Function
	Binds []Val
}
type VTuple []Val
type VIter struct {
	Key   string // ghost heap key of the visited set
	M     *Term  // map ref
	MT    *types.Map
	Dom0  *Term
	IsStr bool
}

// VIface is an interface value whose dynamic content is known.
type VIface struct {
	T types.Type
	V Val
	O *Term // opaque non-nil identity
}
type VBuiltin struct{ Name string }

func vt(t types.Type, l ...*Term) *VT { return &VT{l, t} }

// ---------------------------------------------------------------- state

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string]Val
	defers []deferred
}
type deferred struct {
	call *ssa.CallCommon
	args []Val
	fnv  Val
	pos  ssa.Instruction
}

type State struct {
	fr    *Frame
	heap  map[string]*Term
	pc    []*Term
	alloc *Term
	ghost map[string]*Term
	dead  bool
	rw    map[*Term]*Term // values of reads known from the path condition
}

// read: array element, with what the path condition says about it
func (s *State) read(a, i *Term) *Term {
	t := Select(a, i)
	if v, ok := s.rw[t]; ok {
		return v
	}
	return t
}

// noteRead remembers an equation about an element of an arbitrary number table
func (s *State) noteRead(t *Term) {
	if t.K != KApp || t.Op != "=" {
		return
	}
	for i := 0; i < 2; i++ {
		sel, v := t.Args[i], t.Args[1-i]
		if sel.K == KApp && sel.Op == "select" && sel.Args[0].K == KVar && strings.HasPrefix(sel.Args[0].Op, "H.Big") && len(sel.free) == 0 && len(v.free) == 0 {
			if mentions(v, sel.Args[0]) {
				continue
			}
			if _, ok := s.rw[sel]; ok {
				continue
			}
			m := map[*Term]*Term{sel: v}
			for k, w := range s.rw {
				m[k] = w
			}
			s.rw = m
			return
		}
	}
}

func noteRef(l Leaf, v, alloc *Term) {
	if v.K != KVar || v.S != SInt {
		return
	}
	if strings.HasSuffix(l.Path, "#ref") || !strings.HasSuffix(l.Path, "#off") && !strings.HasSuffix(l.Path, "#len") && isRefType(l.T) {
		if _, ok := refUp[v]; !ok {
			refUp[v] = alloc
		}
	}
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, dead: s.dead, rw: s.rw}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	if s.fr != nil {
		n.fr = s.fr.clone()
	}
	return n
}
func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)), names: make(map[string]Val, len(f.names))}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.names {
		n.names[k] = v
	}
	n.defers = append(n.defers, f.defers...)
	return n
}

func (s *State) assume(t *Term) {
	if t == True || s.dead {
		return
	}
	if t == False {
		s.dead = true
		return
	}
	if t.K == KApp && t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	nt := Not(t)
	for _, p := range s.pc {
		if p == nt {
			s.dead = true
			return
		}
	}
	if contradictsEq(s.pc, t) {
		s.dead = true
		return
	}
	s.noteRead(t)
	s.pc = append(s.pc, t)
}

// decide looks for a syntactic decision of t under the path condition.
func (s *State) decide(t *Term) *Term {
	if t == True || t == False {
		return t
	}
	nt := Not(t)
	for _, p := range s.pc {
		if p == t {
			return True
		}
		if p == nt {
			return False
		}
	}
	if contradictsEq(s.pc, t) {
		return False
	}
	if contradictsEq(s.pc, nt) {
		return True
	}
	if t.K == KApp && t.Op == "and" {
		all := true
		for _, a := range t.Args {
			d := s.decide(a)
			if d == False {
				return False
			}
			if d != True {
				all = false
			}
		}
		if all {
			return True
		}
	}
	if t.K == KApp && t.Op == "or" {
		all := true
		for _, a := range t.Args {
			d := s.decide(a)
			if d == True {
				return True
			}
			if d != False {
				all = false
			}
		}
		if all {
			return False
		}
	}
	if t.K == KApp && t.Op == "not" {
		switch s.decide(t.Args[0]) {
		case True:
			return False
		case False:
			return True
		}
	}
	return nil
}

func constEq(t *Term) (x, c *Term) {
	if t.K == KApp && t.Op == "=" {
		a, b := t.Args[0], t.Args[1]
		if b.K == KInt || b.K == KStr {
			return a, b
		}
		if a.K == KInt || a.K == KStr {
			return b, a
		}
	}
	return nil, nil
}

// contradictsEq: t is x=c (or not x=c) against known x=d.
func contradictsEq(pc []*Term, t *Term) bool {
	neg := false
	u := t
	if t.K == KApp && t.Op == "not" {
		neg = true
		u = t.Args[0]
	}
	x, c := constEq(u)
	if x == nil {
		// linear comparisons with a known constant value
		if u.K == KApp && u.Op == "<=" {
			for _, p := range pc {
				y, d := constEq(p)
				if y == nil || d.K != KInt {
					continue
				}
				if u.Args[0] == y || u.Args[1] == y {
					r := Subst(u, map[*Term]*Term{y: d})
					if (r == False && !neg) || (r == True && neg) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, p := range pc {
		y, d := constEq(p)
		if y == x {
			if neg == (c == d) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- heap

type heapVarInfo struct {
	levels int
	leaf   Leaf
	s      Sort
}

var heapInfo = map[string]heapVarInfo{} // key -> info

func lvlSort(levels int, kSort Sort, s Sort) Sort {
	switch levels {
	case 0:
		return s
	case 1:
		return ArrS(SInt, s)
	}
	return ArrS(SInt, ArrS(kSort, s))
}

func (x *Exec) regKey(key string, levels int, kSort Sort, leaf Leaf) {
	if _, ok := heapInfo[key]; !ok {
		heapInfo[key] = heapVarInfo{levels, leaf, lvlSort(levels, kSort, leaf.S)}
	}
}

func (x *Exec) hget(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return x.baseVar(key)
}

func (x *Exec) baseVar(key string) *Term {
	hi, ok := heapInfo[key]
	if !ok {
		panic("unknown heap key " + key)
	}
	name := "H." + key
	v := Var(name, hi.s)
	if !x.wfDone[name] {
		x.wfDone[name] = true
		x.addHeapWF(v, hi, x.alloc0)
		for _, b := range x.bumps {
			x.addHeapClosed(v, hi, b)
		}
	}
	return v
}

func (x *Exec) freshHeap(key string, alloc *Term) *Term {
	hi := heapInfo[key]
	v := Fresh("H."+key, hi.s)
	x.wfDone[v.Op] = true
	x.addHeapWF(v, hi, alloc)
	return v
}

// unconditional range facts + closedness at alloc
func (x *Exec) addHeapWF(v *Term, hi heapVarInfo, alloc *Term) {
	if strings.HasPrefix(v.Op, "H.IT:") || strings.HasPrefix(v.Op, "IT:") {
		return
	}
	l := hi.leaf
	if l.S == SInt {
		if strings.HasSuffix(l.Path, "#ref") || isRefType(l.T) && !strings.HasSuffix(l.Path, "#off") && !strings.HasSuffix(l.Path, "#len") {
			x.addHeapClosed(v, hi, alloc)
			return
		}
		wf := func(t *Term) *Term { return leafWF(l, t, nil) }
		addHeapAx(v, hi, wf, nil)
		return
	}
	if at, ok := l.T.Underlying().(*types.Array); ok && strings.HasPrefix(l.S, "(Array Int Int)") && hi.levels == 1 {
		r, i := BoundVar("r", SInt), BoundVar("i", SInt)
		el := app("select", SInt, app("select", l.S, v, r), i)
		wf := leafWF(Leaf{"", SInt, at.Elem()}, el, nil)
		if wf != True {
			addAxiom(v.Op, Forall([]*Term{r, i}, wf, []*Term{el}))
		}
	}
}

func addHeapAx(v *Term, hi heapVarInfo, wf func(*Term) *Term, guard func(r *Term) *Term) {
	switch hi.levels {
	case 0:
		w := wf(v)
		addAxiom(v.Op, w)
	case 1:
		r := BoundVar("r", SInt)
		el := app("select", arrElem(v.S), v, r)
		w := wf(el)
		if w == True {
			return
		}
		if guard != nil {
			w = Implies(guard(r), w)
		}
		addAxiom(v.Op, Forall([]*Term{r}, w, []*Term{el}))
	case 2:
		in := arrElem(v.S)
		r, k := BoundVar("r", SInt), BoundVar("k", arrIdx(in))
		el := app("select", arrElem(in), app("select", in, v, r), k)
		w := wf(el)
		if w == True {
			return
		}
		if guard != nil {
			w = Implies(guard(r), w)
		}
		addAxiom(v.Op, Forall([]*Term{r, k}, w, []*Term{el}))
	}
}

func (x *Exec) addHeapClosed(v *Term, hi heapVarInfo, alloc *Term) {
	l := hi.leaf
	if l.S != SInt {
		return
	}
	if !(strings.HasSuffix(l.Path, "#ref") || isRefType(l.T) && !strings.HasSuffix(l.Path, "#off") && !strings.HasSuffix(l.Path, "#len")) {
		return
	}
	other := ""
	for _, a := range append([]*Term{alloc}, alloc.Args...) {
		if a.K == KVar {
			other = a.Op
		}
	}
	if other == "" {
		other = v.Op
	}
	wf := func(t *Term) *Term { return And(Le(Int(0), t), Le(t, alloc)) }
	switch hi.levels {
	case 0:
		addAxiom2(v.Op, other, wf(v))
	case 1:
		r := closedBound("r", SInt)
		el := app("select", arrElem(v.S), v, r)
		addAxiom2(v.Op, other, Forall([]*Term{r}, Implies(Le(r, alloc), wf(el)), []*Term{el}))
	case 2:
		in := arrElem(v.S)
		r, k := closedBound("r", SInt), closedBound("k", arrIdx(in))
		el := app("select", arrElem(in), app("select", in, v, r), k)
		addAxiom2(v.Op, other, Forall([]*Term{r, k}, Implies(Le(r, alloc), wf(el)), []*Term{el}))
	}
}

var closedBounds = map[string]*Term{}

func closedBound(h string, s Sort) *Term {
	k := h + s
	if b, ok := closedBounds[k]; ok {
		return b
	}
	b := BoundVar("c"+h, s)
	closedBounds[k] = b
	return b
}

// bump: the allocation counter grew by an unknown amount
func (x *Exec) bumpAlloc(st *State) {
	n := Fresh("alloc", SInt)
	st.assume(Le(st.alloc, n))
	allocUp[n] = append(allocUp[n], st.alloc)
	st.alloc = n
	x.bumps = append(x.bumps, n)
	for key, h := range st.heap {
		x.closeUnder(key, h, n)
	}
	for key, hi := range heapInfo {
		if _, ok := st.heap[key]; !ok && x.wfDone["H."+key] {
			x.addHeapClosed(Var("H."+key, hi.s), hi, n)
		}
	}
}

func (x *Exec) closeUnder(key string, h *Term, n *Term) {
	for h.K == KApp && h.Op == "store" {
		h = h.Args[0]
	}
	if h.K == KVar {
		x.addHeapClosed(h, heapInfo[key], n)
	} else if h.K == KApp && h.Op == "ite" {
		x.closeUnder(key, h.Args[1], n)
		x.closeUnder(key, h.Args[2], n)
	}
}

func typeKey(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok {
		if atomicStructs[shortType(t)] {
			if isBigInt(t) {
				return "Big"
			}
			return "C:" + shortType(t)
		}
		return shortType(t)
	}
	return "C:" + shortType(t)
}

func joinKey(owner, path string) string {
	if path == "" {
		return owner
	}
	if strings.HasPrefix(path, "#") {
		return owner + path
	}
	return owner + "." + path
}

// pointee turns a pointer value into an lvalue.
func (x *Exec) pointee(v Val, elem types.Type) *LV {
	switch p := v.(type) {
	case *LV:
		return p
	case *VT:
		if at, ok := elem.Underlying().(*types.Array); ok && !atomicStructs[shortType(elem)] {
			return &LV{Kind: 2, Ref: p.L[0], Idx: nil, Owner: "EL:" + elName(at.Elem()), T: elem}
		}
		return &LV{Kind: 1, Ref: p.L[0], Owner: typeKey(elem), T: elem}
	}
	panic(unsupported(fmt.Sprintf("pointee of %T", v)))
}

func elName(t types.Type) string { return shortType(t) }

type unsupported string

func (x *Exec) lvKeys(lv *LV) ([]Leaf, []string) {
	t := lv.T
	if lv.ArrIdx != nil {
		t = lv.ArrT
	}
	ls := leavesOf(t)
	keys := make([]string, len(ls))
	for i, l := range ls {
		p := joinPath(lv.Path, l.Path)
		keys[i] = joinKey(lv.Owner, p)
		lf := l
		lf.Path = p
		x.regKey(keys[i], lv.Kind, SInt, lf)
	}
	return ls, keys
}

func (x *Exec) readLeaf(st *State, lv *LV, key string) *Term {
	h := x.hget(st, key)
	switch lv.Kind {
	case 0:
		return h
	case 1:
		return Select(h, lv.Ref)
	}
	a := Select(h, lv.Ref)
	if lv.Idx == nil {
		return a
	}
	return Select(a, lv.Idx)
}

func (x *Exec) writeLeaf(st *State, lv *LV, key string, v *Term) {
	h := x.hget(st, key)
	switch lv.Kind {
	case 0:
		st.heap[key] = v
	case 1:
		st.heap[key] = Store(h, lv.Ref, v)
	case 2:
		if lv.Idx == nil {
			st.heap[key] = Store(h, lv.Ref, v)
		} else {
			st.heap[key] = Store(h, lv.Ref, Store(Select(h, lv.Ref), lv.Idx, v))
		}
	}
}

// isWholeArray: pointer to a heap array object
func (lv *LV) isWholeArray() bool { return lv.Kind == 2 && lv.Idx == nil }

func (x *Exec) load(st *State, lv *LV) Val {
	if lv.isWholeArray() {
		at := lv.T.Underlying().(*types.Array)
		var out []*Term
		for _, l := range leavesOf(at.Elem()) {
			key := joinKey(lv.Owner, l.Path)
			x.regKey(key, 2, SInt, l)
			out = append(out, Select(x.hget(st, key), lv.Ref))
		}
		return &VT{out, lv.T}
	}
	ls, keys := x.lvKeys(lv)
	out := make([]*Term, len(ls))
	for i := range ls {
		out[i] = x.readLeaf(st, lv, keys[i])
		if lv.ArrIdx != nil {
			out[i] = Select(out[i], lv.ArrIdx)
		}
	}
	return &VT{out, lv.T}
}

func (x *Exec) store(st *State, lv *LV, v Val) {
	if cl, ok := v.(*VClosure); ok {
		// a closure stored in a cell: keep it by reference
		r := x.boxOpaque(cl)
		v = vt(lv.T, r)
	}
	w := x.toVT(st, v, lv.T)
	if lv.isWholeArray() {
		at := lv.T.Underlying().(*types.Array)
		for i, l := range leavesOf(at.Elem()) {
			key := joinKey(lv.Owner, l.Path)
			x.regKey(key, 2, SInt, l)
			st.heap[key] = Store(x.hget(st, key), lv.Ref, w.L[i])
		}
		return
	}
	ls, keys := x.lvKeys(lv)
	if len(ls) != len(w.L) {
		panic(unsupported(fmt.Sprintf("store leaf mismatch %s %s", lv.T, w.T)))
	}
	for i := range ls {
		val := w.L[i]
		if lv.ArrIdx != nil {
			val = Store(x.readLeaf(st, lv, keys[i]), lv.ArrIdx, val)
		}
		x.writeLeaf(st, lv, keys[i], val)
	}
}

// boxOpaque gives a closure or interface an identity and remembers its content.
func (x *Exec) boxOpaque(v Val) *Term {
	for t, b := range x.boxes {
		if b == v {
			return t
		}
	}
	t := Fresh("box", SInt)
	addAxiom(t.Op, Lt(Int(0), t))
	x.boxes[t] = v
	return t
}

func (x *Exec) toVT(st *State, v Val, t types.Type) *VT {
	switch w := v.(type) {
	case *VT:
		return w
	case *LV:
		if w.Kind == 1 && w.Path == "" && w.ArrIdx == nil {
			return vt(t, w.Ref)
		}
		if w.isWholeArray() {
			return vt(t, w.Ref)
		}
		// interior pointer escapes: opaque
		x.imprecise("interior pointer stored: " + w.Owner + "." + w.Path)
		return vt(t, x.boxOpaque(w))
	case *VIface:
		if w.O == nil {
			w.O = Fresh("iface", SInt)
			addAxiom(w.O.Op, Lt(Int(0), w.O))
			x.boxes[w.O] = w
		}
		return vt(t, w.O)
	case *VClosure:
		return vt(t, x.boxOpaque(w))
	case VTuple:
		var l []*Term
		tu, _ := t.(*types.Tuple)
		for i, e := range w {
			var et types.Type
			if tu != nil {
				et = tu.At(i).Type()
			}
			l = append(l, x.toVT(st, e, et).L...)
		}
		return &VT{l, t}
	}
	panic(unsupported(fmt.Sprintf("toVT %T", v)))
}

func (x *Exec) freshVT(st *State, hint string, t types.Type) *VT {
	ls := leavesOf(t)
	out := &VT{T: t}
	for _, l := range ls {
		v := Fresh(hint+l.Path, l.S)
		if st != nil {
			st.assume(leafWF(l, v, st.alloc))
			noteRef(l, v, st.alloc)
		}
		out.L = append(out.L, v)
	}
	x.sliceNilWF(st, out, t)
	return out
}

// nil slices have length 0
func (x *Exec) sliceNilWF(st *State, v *VT, t types.Type) {
	if st == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		st.assume(Implies(Eq(v.L[0], Int(0)), Eq(v.L[2], Int(0))))
	}
}

func zeroVT(t types.Type) *VT {
	out := &VT{T: t}
	for _, l := range leavesOf(t) {
		out.L = append(out.L, zeroOf(l.S))
	}
	return out
}

// newRef allocates a fresh object reference.
func (x *Exec) newRef(st *State) *Term {
	st.alloc = Add(st.alloc, Int(1))
	return st.alloc
}

// allocObj allocates a zeroed object of type t and returns a pointer value.
func (x *Exec) allocObj(st *State, t types.Type, pt types.Type) Val {
	r := x.newRef(st)
	p := vt(pt, r)
	lv := x.pointee(p, t)
	if lv.isWholeArray() {
		at := t.Underlying().(*types.Array)
		for _, l := range leavesOf(at.Elem()) {
			key := joinKey(lv.Owner, l.Path)
			x.regKey(key, 2, SInt, l)
			st.heap[key] = Store(x.hget(st, key), r, ConstArr(ArrS(SInt, l.S), zeroOf(l.S)))
		}
		return p
	}
	x.store(st, lv, zeroVT(t))
	return p
}

// ---------------------------------------------------------------- slices, maps

func (x *Exec) elKeys(elem types.Type) ([]Leaf, []string) {
	ls := leavesOf(elem)
	ks := make([]string, len(ls))
	for i, l := range ls {
		ks[i] = joinKey("EL:"+elName(elem), l.Path)
		x.regKey(ks[i], 2, SInt, l)
	}
	return ls, ks
}

func (x *Exec) sliceElem(st *State, s *VT, elem types.Type, i *Term) *VT {
	_, ks := x.elKeys(elem)
	out := &VT{T: elem}
	for _, k := range ks {
		out.L = append(out.L, Select(Select(x.hget(st, k), s.L[0]), Add(s.L[1], i)))
	}
	return out
}

func mapKeySort(m *types.Map) Sort { return leavesOf(m.Key())[0].S }

func mapName(m *types.Map) string {
	return shortType(m.Key()) + ">" + shortType(m.Elem())
}

func (x *Exec) mapKeys(m *types.Map) (dom string, ls []Leaf, vals []string) {
	if len(leavesOf(m.Key())) != 1 {
		panic(unsupported("map with composite key " + m.String()))
	}
	ks := mapKeySort(m)
	dom = "MD:" + mapName(m)
	x.regKey(dom, 2, ks, Leaf{"", SBool, types.Typ[types.Bool]})
	ls = leavesOf(m.Elem())
	for _, l := range ls {
		k := joinKey("MV:"+mapName(m), l.Path)
		x.regKey(k, 2, ks, l)
		vals = append(vals, k)
	}
	return
}

func (x *Exec) mapDom(st *State, m *types.Map, ref *Term) *Term {
	d, _, _ := x.mapKeys(m)
	if ref == Int(0) {
		return ConstArr(ArrS(mapKeySort(m), SBool), False)
	}
	return Select(x.hget(st, d), ref)
}
func (x *Exec) mapVal(st *State, m *types.Map, ref, k *Term) *VT {
	_, _, vs := x.mapKeys(m)
	out := &VT{T: m.Elem()}
	for _, v := range vs {
		out.L = append(out.L, Select(Select(x.hget(st, v), ref), k))
	}
	return out
}
func (x *Exec) mapStore(st *State, m *types.Map, ref, k *Term, v *VT) {
	d, _, vs := x.mapKeys(m)
	h := x.hget(st, d)
	st.heap[d] = Store(h, ref, Store(Select(h, ref), k, True))
	for i, key := range vs {
		h := x.hget(st, key)
		st.heap[key] = Store(h, ref, Store(Select(h, ref), k, v.L[i]))
	}
	touch(k)
}

var bigMaxLen = new(big.Int).Lsh(big.NewInt(1), 60)
