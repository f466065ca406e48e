package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	st *State
	v  Val
}

func one(st *State, v Val) []callRes { return []callRes{{st, v}} }

// ---------------------------------------------------------------- dispatch

func (x *Exec) callArgs(s *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fnv Val
	if c.IsInvoke() {
		args = append(args, x.val(s, c.Value))
	} else {
		fnv = x.val(s, c.Value)
	}
	isErr := isFmtPure(calleeName(c)) || isLogCall(calleeName(c)) || strings.HasPrefix(calleeName(c), "github.com/pkg/errors.Wrap")
	fi := x.w.info(s.fr.fn)
	for _, a := range c.Args {
		if isErr && x.w.sinkOnly(fi, a) {
			args = append(args, zeroVT(a.Type()))
			continue
		}
		args = append(args, x.val(s, a))
	}
	return fnv, args
}

func (x *Exec) call(s *State, in *ssa.Call) []callRes {
	fnv, args := x.callArgs(s, &in.Call)
	return x.callValue(s, &in.Call, fnv, args, in)
}

// resTuple shapes a list of results as the value of a call instruction.
func resTuple(rs []Val) Val {
	switch len(rs) {
	case 0:
		return VTuple{}
	case 1:
		return rs[0]
	}
	return VTuple(rs)
}

func (x *Exec) freshResults(st *State, hint string, sig *types.Signature) Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVT(st, hint, sig.Results().At(i).Type()))
	}
	return resTuple(rs)
}

func (x *Exec) callValue(s *State, c *ssa.CallCommon, fnv Val, args []Val, in ssa.Instruction) []callRes {
	if s.dead {
		return nil
	}
	name := calleeName(c)
	if b, ok := fnv.(VBuiltin); ok {
		return x.builtin(s, c, b.Name, args, in)
	}
	if c.IsInvoke() {
		recv := args[0]
		if w, ok := recv.(*VT); ok {
			if b, ok := x.boxes[w.L[0]]; ok {
				recv = b
			}
		}
		if f, ok := recv.(*VIface); ok {
			m := x.w.prog.LookupMethod(f.T, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return x.callFn(s, c, m, nil, append([]Val{f.V}, args[1:]...), in)
			}
		}
		x.nilCheckIface(s, recv, x.pos(in))
		if m := x.w.model(name); m != nil {
			return m(x, s, c, args, in)
		}
		if isLogCall(name) {
			return one(s, x.freshResults(s, "log", c.Signature()))
		}
		x.trusted["external "+name+" (result arbitrary, no effect on tracked memory)"] = true
		return one(s, x.freshResults(s, "ext."+c.Method.Name(), c.Signature()))
	}
	if f, ok := fnv.(*VClosure); ok {
		return x.callFn(s, c, f.Fn, f.Binds, args, in)
	}
	if w, ok := fnv.(*VT); ok {
		if b, ok := x.boxes[w.L[0]]; ok {
			if f, ok := b.(*VClosure); ok {
				return x.callFn(s, c, f.Fn, f.Binds, args, in)
			}
		}
		tn := "dyn:" + shortType(c.Value.Type())
		x.mustHold(s, Ne(w.L[0], Int(0)), "call of nil function", x.pos(in))
		if sp := x.w.dynSpecs[tn]; sp != nil {
			return x.applyContract(s, sp, args, c.Signature(), in)
		}
		x.trusted["function value of type "+shortType(c.Value.Type())+" (result arbitrary, no effect on tracked memory)"] = true
		return one(s, x.freshResults(s, "dyn", c.Signature()))
	}
	panic(unsupported(fmt.Sprintf("call of %T (%s)", fnv, c)))
}

func (x *Exec) nilCheckIface(s *State, v Val, pos string) {
	if w, ok := v.(*VT); ok {
		x.mustHold(s, Ne(w.L[0], Int(0)), "method call on nil interface", pos)
	}
}

func originName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().String()
	}
	return fn.String()
}

func (x *Exec) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	pk := f.Pkg
	path := ""
	if pk != nil {
		path = pk.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	return strings.HasPrefix(path, x.w.modPath) && !strings.HasSuffix(path, "/contract")
}

func (x *Exec) callFn(s *State, c *ssa.CallCommon, fn *ssa.Function, binds []Val, args []Val, in ssa.Instruction) []callRes {
	name := originName(fn)
	if isFatalCall(name) {
		x.abort(s, "log.Fatal / os.Exit", x.pos(in))
		return nil
	}
	if isLogCall(name) {
		return one(s, x.freshResults(s, "log", fn.Signature))
	}
	if m := x.w.model(name); m != nil {
		if !x.inRepo(fn) {
			x.trusted["model of "+name] = true
		}
		return m(x, s, c, args, in)
	}
	// initialisers of imported packages: they cannot refer to a package that imports them
	if fn.Synthetic == "package initializer" {
		return one(s, resTuple(nil))
	}
	if sp := x.w.specs[name]; sp != nil && !sp.Inline && !x.forceIn[fn] {
		return x.applyContract(s, sp, args, fn.Signature, in)
	}
	if x.inRepo(fn) && len(fn.Blocks) > 0 || fn.Synthetic != "" && len(fn.Blocks) > 0 {
		if x.inRepo(fn) && fn.Parent() == nil {
			x.inlined[name] = true
		}
		outs := x.execFunc(s, fn, args, binds)
		var rs []callRes
		for _, o := range outs {
			rs = append(rs, callRes{o.st, resTuple(o.res)})
		}
		return rs
	}
	x.trusted["external "+name+" (result arbitrary, no effect on tracked memory)"] = true
	v := x.freshResults(s, "ext."+fn.Name(), fn.Signature)
	return one(s, v)
}

// ---------------------------------------------------------------- builtins

func (x *Exec) lenOf(s *State, v Val, t types.Type) *Term {
	w := x.toVT(s, v, t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return w.L[2]
	case *types.Basic:
		return UF("strlen", SInt, w.L[0])
	case *types.Map:
		d := x.mapDom(s, u, w.L[0])
		if d.K == KApp && d.Op == "const" && d.Args[0] == False {
			return Int(0)
		}
		return Card(d)
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			return Int(at.Len())
		}
	case *types.Array:
		return Int(u.Len())
	}
	n := Fresh("len", SInt)
	s.assume(Le(Int(0), n))
	return n
}

// Card is the number of keys of a map domain.
func Card(d *Term) *Term {
	nm := "card_" + sanitize(arrIdx(d.S))
	t := UF(nm, SInt, d)
	if len(symAxioms[nm]) == 0 {
		is := arrIdx(d.S)
		b := BoundVar("d", d.S)
		k := BoundVar("k", is)
		cd := app(nm, SInt, b)
		sel := app("select", SBool, b, k)
		addAxiom(nm, quant(KForall, []*Term{b}, Le(Int(0), cd), [][]*Term{{cd}}))
		addAxiom(nm, quant(KForall, []*Term{b, k}, Implies(sel, Le(Int(1), cd)), [][]*Term{{cd, sel}}))
		w := "cardwit_" + sanitize(is)
		addAxiom(nm, quant(KForall, []*Term{b}, Or(Eq(cd, Int(0)), Select(b, UF(w, is, b))), [][]*Term{{cd}}))
		e := ConstArr(d.S, False)
		addAxiom(nm, Eq(app(nm, SInt, e), Int(0)))
		st := app("store", d.S, b, k, True)
		cs := app(nm, SInt, st)
		addAxiom(nm, quant(KForall, []*Term{b, k}, Eq(cs, Ite(sel, cd, Add(cd, Int(1)))), [][]*Term{{cs}}))
	}
	return t
}

func (x *Exec) builtin(s *State, c *ssa.CallCommon, name string, args []Val, in ssa.Instruction) []callRes {
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			n := x.lenOf(s, args[0], c.Args[0].Type())
			// a nil map is empty
			s.assume(Or(Ne(x.toVT(s, args[0], c.Args[0].Type()).L[0], Int(0)), Eq(n, Int(0))))
			return one(s, vt(types.Typ[types.Int], n))
		}
		return one(s, vt(types.Typ[types.Int], x.lenOf(s, args[0], c.Args[0].Type())))
	case "cap":
		n := Fresh("cap", SInt)
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			s.assume(Le(x.lenOf(s, args[0], c.Args[0].Type()), n))
		}
		return one(s, vt(types.Typ[types.Int], n))
	case "append":
		return one(s, x.appendModel(s, c, args))
	case "copy":
		return x.copyModel(s, c, args)
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		r := x.toVT(s, args[0], c.Args[0].Type()).L[0]
		k := x.toVT(s, args[1], c.Args[1].Type()).L[0]
		d, _, _ := x.mapKeys(m)
		h := x.hget(s, d)
		s.heap[d] = Store(h, r, Store(Select(h, r), k, False))
		touch(k)
		return one(s, VTuple{})
	case "ssa:wrapnilchk":
		x.nilCheck(s, args[0], x.pos(in))
		return one(s, args[0])
	case "print", "println":
		return one(s, VTuple{})
	case "min", "max":
		t := c.Args[0].Type()
		a, b := x.toVT(s, args[0], t).L[0], x.toVT(s, args[1], t).L[0]
		if name == "min" {
			return one(s, vt(t, Ite(Le(a, b), a, b)))
		}
		return one(s, vt(t, Ite(Le(a, b), b, a)))
	case "recover":
		return one(s, zeroVT(types.Universe.Lookup("error").Type()))
	case "close":
		return one(s, VTuple{})
	case "panic":
		x.abort(s, "panic", x.pos(in))
		return nil
	}
	panic(unsupported("builtin " + name))
}

// append always copies into a fresh backing array (the old array's spare capacity
// is never read through another slice in the supported programs; recorded).
func (x *Exec) appendModel(s *State, c *ssa.CallCommon, args []Val) Val {
	t := c.Args[0].Type()
	el := t.Underlying().(*types.Slice).Elem()
	a := x.toVT(s, args[0], t)
	if len(args) < 2 {
		return a
	}
	x.trusted["append modelled as copy (no aliasing through spare capacity)"] = true
	ls, ks := x.elKeys(el)
	n := a.L[2]
	if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		// append([]byte, string...)
		str := x.toVT(s, args[1], c.Args[1].Type()).L[0]
		r := x.newRef(s)
		cat := UF("strcat", SStr, x.seqStr(s, &VT{a.L, t}), str)
		s.heap[ks[0]] = Store(x.hget(s, ks[0]), r, UF("strarr", ArrS(SInt, SInt), cat))
		return &VT{[]*Term{r, Int(0), UF("strlen", SInt, cat)}, t}
	}
	b := x.toVT(s, args[1], c.Args[1].Type())
	m := b.L[2]
	if m == Int(0) {
		return a
	}
	r := x.newRef(s)
	if m.K == KInt && m.I.Int64() <= 8 {
		for j := range ls {
			h := x.hget(s, ks[j])
			src := Select(h, b.L[0])
			base := Select(h, a.L[0])
			if a.L[1] != Int(0) {
				base = x.shiftArr(base, a.L[1], n)
			}
			if n == Int(0) && a.L[0] == Int(0) {
				base = ConstArr(base.S, zeroOf(ls[j].S))
			}
			for i := int64(0); i < m.I.Int64(); i++ {
				base = Store(base, Add(n, Int(i)), Select(src, Add(b.L[1], Int(i))))
			}
			s.heap[ks[j]] = Store(h, r, base)
		}
	} else {
		for j := range ls {
			h := x.hget(s, ks[j])
			src := Select(h, b.L[0])
			base := Select(h, a.L[0])
			na := Fresh("app", base.S)
			k := BoundVar("i", SInt)
			sel := app("select", ls[j].S, na, k)
			s.assume(Forall([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, n)), Eq(sel, Select(base, Add(a.L[1], k)))), []*Term{sel}))
			s.assume(Forall([]*Term{k}, Implies(And(Le(n, k), Lt(k, Add(n, m))), Eq(sel, Select(src, Add(b.L[1], Sub(k, n))))), []*Term{sel}))
			// the same fact triggered from the source elements
			k2 := BoundVar("i", SInt)
			if b.L[1] == Int(0) {
				ssel := app("select", ls[j].S, src, k2)
				if src.K == KVar || src.K == KApp && src.Op == "select" {
					s.assume(Forall([]*Term{k2}, Implies(And(Le(Int(0), k2), Lt(k2, m)), Eq(app("select", ls[j].S, na, Add(n, k2)), ssel)), []*Term{ssel}))
				}
			}
			// well-formedness of the copied elements
			x.elemWF(s, na, ls[j])
			s.heap[ks[j]] = Store(h, r, na)
		}
	}
	return &VT{[]*Term{r, Int(0), Add(n, m)}, t}
}

func (x *Exec) elemWF(s *State, na *Term, l Leaf) {
	if l.S != SInt {
		return
	}
	k := BoundVar("i", SInt)
	sel := app("select", l.S, na, k)
	w := leafWF(l, sel, s.alloc)
	if w != True {
		// elements outside the slice are unconstrained but never read: choosing them well-formed is sound
		s.assume(Forall([]*Term{k}, w, []*Term{sel}))
	}
}

func (x *Exec) shiftArr(base, off, n *Term) *Term {
	na := Fresh("shift", base.S)
	k := BoundVar("i", SInt)
	sel := app("select", arrElem(base.S), na, k)
	addAxiom(na.Op, Forall([]*Term{k}, Eq(sel, Select(base, Add(off, k))), []*Term{sel}))
	if bs := Select(base, k); bs.K == KApp && bs.Op == "select" && off != Int(0) {
		addAxiom(na.Op, Forall([]*Term{k}, Eq(Select(na, Sub(k, off)), bs), []*Term{bs}))
	}
	return na
}

func (x *Exec) copyModel(s *State, c *ssa.CallCommon, args []Val) []callRes {
	t := c.Args[0].Type()
	el := t.Underlying().(*types.Slice).Elem()
	a := x.toVT(s, args[0], t)
	ls, ks := x.elKeys(el)
	var m *Term
	var srcs []*Term
	off := Int(0)
	if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		str := x.toVT(s, args[1], c.Args[1].Type()).L[0]
		m = UF("strlen", SInt, str)
		srcs = []*Term{UF("strarr", ArrS(SInt, SInt), str)}
	} else {
		b := x.toVT(s, args[1], c.Args[1].Type())
		m = b.L[2]
		off = b.L[1]
		for j := range ls {
			srcs = append(srcs, Select(x.hget(s, ks[j]), b.L[0]))
		}
	}
	cnt := Ite(Le(m, a.L[2]), m, a.L[2])
	if s.decide(Le(m, a.L[2])) == True {
		cnt = m
	}
	for j := range ls {
		h := x.hget(s, ks[j])
		base := Select(h, a.L[0])
		na := Fresh("cp", base.S)
		k := BoundVar("i", SInt)
		sel := app("select", ls[j].S, na, k)
		in := And(Le(a.L[1], k), Lt(k, Add(a.L[1], cnt)))
		s.assume(Forall([]*Term{k}, Eq(sel, Ite(in, Select(srcs[j], Add(off, Sub(k, a.L[1]))), Select(base, k))), []*Term{sel}))
		s.heap[ks[j]] = Store(h, a.L[0], na)
	}
	return one(s, vt(types.Typ[types.Int], cnt))
}
