package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- contract language: evaluation

// SV is a specification value: a program value together with its Go type.
type SV struct {
	V Val
	T types.Type
}

var (
	mInt  types.Type = types.Typ[types.UntypedInt]
	mBool types.Type = types.Typ[types.Bool]
	mStr  types.Type = types.Typ[types.String]
)

type specErr string

type sctx struct {
	x    *Exec
	st   *State
	old  *State
	pre  *State // loop entry
	lc   *loopCtx
	vars map[string]SV
	asm  bool // the formula is going to be assumed (ownership is then given by inverse functions)
	src  string
}

func (c *sctx) fail(f string, a ...interface{}) {
	panic(specErr(c.src + ": " + fmt.Sprintf(f, a...)))
}

func (c *sctx) with(name string, v SV) *sctx {
	n := *c
	n.vars = make(map[string]SV, len(c.vars)+1)
	for k, w := range c.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func svInt(t *Term) SV  { return SV{vt(mInt, t), mInt} }
func svBool(t *Term) SV { return SV{vt(mBool, t), mBool} }
func svStr(t *Term) SV  { return SV{vt(mStr, t), mStr} }

func (c *sctx) vt(v SV) *VT { return c.x.toVT(c.st, v.V, v.T) }
func (c *sctx) term(v SV) *Term {
	w := c.vt(v)
	if len(w.L) != 1 {
		c.fail("scalar expected, got %v", v.T)
	}
	return w.L[0]
}
func (c *sctx) boolE(e *Expr) *Term {
	t := c.term(c.eval(e))
	if t.S != SBool {
		c.fail("boolean expected in %s", exprStr(e))
	}
	return t
}
func (c *sctx) intE(e *Expr) *Term {
	t := c.term(c.eval(e))
	if t.S != SInt {
		c.fail("integer expected in %s", exprStr(e))
	}
	return t
}

func exprStr(e *Expr) string {
	if e == nil {
		return ""
	}
	switch e.Op {
	case "int":
		return e.I.String()
	case "str":
		return fmt.Sprintf("%q", e.Name)
	case "id":
		return e.Name
	case ".":
		return exprStr(e.Args[0]) + "." + e.Name
	case "[]":
		return exprStr(e.Args[0]) + "[" + exprStr(e.Args[1]) + "]"
	case "[*]":
		return exprStr(e.Args[0]) + "[*]"
	case "bin":
		return "(" + exprStr(e.Args[0]) + " " + e.Name + " " + exprStr(e.Args[1]) + ")"
	case "un":
		return e.Name + exprStr(e.Args[0])
	case "call":
		var a []string
		for _, x := range e.Args {
			a = append(a, exprStr(x))
		}
		return e.Name + "(" + strings.Join(a, ", ") + ")"
	}
	return e.Op + "…"
}

func isPtr(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

// lval evaluates an expression denoting a variable; nil if it does not
func (c *sctx) lval(e *Expr) (*LV, types.Type) {
	switch e.Op {
	case "call":
		if e.Name == "deref" && len(e.Args) == 1 {
			v := c.eval(e.Args[0])
			if el, ok := isPtr(v.T); ok {
				return c.x.pointee(v.V, el), el
			}
		}
	case ".":
		if v, ok := c.qualified(e); ok {
			_ = v
			if g := c.global(e); g != nil {
				t := g.Type().Underlying().(*types.Pointer).Elem()
				return &LV{Kind: 0, Owner: "G:" + g.Pkg.Pkg.Name() + "." + g.Name(), T: t}, t
			}
			return nil, nil
		}
		base := e.Args[0]
		var lv *LV
		var t types.Type
		if l, lt := c.lval(base); l != nil {
			lv, t = l, lt
			if el, ok := isPtr(t); ok {
				p := c.x.load(c.st, lv)
				lv = c.x.pointee(p, el)
				t = el
			}
		} else {
			v := c.eval(base)
			el, ok := isPtr(v.T)
			if !ok {
				return nil, nil
			}
			lv = c.x.pointee(v.V, el)
			t = el
		}
		return c.fieldLV(lv, t, e.Name)
	case "[]":
		b := c.eval(e.Args[0])
		switch u := b.T.Underlying().(type) {
		case *types.Slice:
			w := c.vt(b)
			c.x.elKeys(u.Elem())
			return &LV{Kind: 2, Ref: w.L[0], Idx: Add(w.L[1], c.intE(e.Args[1])), Owner: "EL:" + elName(u.Elem()), T: u.Elem()}, u.Elem()
		}
	case "id":
		if _, ok := c.vars[e.Name]; ok {
			return nil, nil
		}
	}
	return nil, nil
}

func (c *sctx) fieldLV(lv *LV, t types.Type, name string) (*LV, types.Type) {
	obj, path, _ := types.LookupFieldOrMethod(t, true, c.x.w.pkgOf(t), name)
	f, ok := obj.(*types.Var)
	if !ok {
		c.fail("no field %s in %v", name, t)
	}
	_ = f
	for _, i := range path {
		if el, ok := isPtr(t); ok {
			lv = c.x.pointee(c.x.load(c.st, lv), el)
			t = el
		}
		fd := t.Underlying().(*types.Struct).Field(i)
		n := *lv
		n.Path = joinPath(lv.Path, fd.Name())
		n.T = fd.Type()
		lv, t = &n, fd.Type()
	}
	return lv, t
}

func (w *World) pkgOf(t types.Type) *types.Package {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	if p, ok := t.(*types.Pointer); ok {
		return w.pkgOf(p.Elem())
	}
	return nil
}

// qualified: package-qualified constant or variable
func (c *sctx) qualified(e *Expr) (types.Object, bool) {
	if e.Op != "." || e.Args[0].Op != "id" {
		return nil, false
	}
	if _, ok := c.vars[e.Args[0].Name]; ok {
		return nil, false
	}
	pk := c.x.w.pkgByName(e.Args[0].Name)
	if pk == nil {
		return nil, false
	}
	o := pk.Scope().Lookup(e.Name)
	return o, o != nil
}
func (c *sctx) global(e *Expr) *ssa.Global {
	o, ok := c.qualified(e)
	if !ok {
		return nil
	}
	v, ok := o.(*types.Var)
	if !ok {
		return nil
	}
	sp := c.x.w.prog.Package(v.Pkg())
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[v.Name()].(*ssa.Global)
	return g
}

func (c *sctx) eval(e *Expr) SV {
	x := c.x
	switch e.Op {
	case "int":
		return svInt(IntB(e.I))
	case "str":
		return svStr(StrLit(e.Name))
	case "id":
		switch e.Name {
		case "true":
			return svBool(True)
		case "false":
			return svBool(False)
		case "nil":
			return SV{vt(types.Typ[types.UntypedNil], Int(0)), types.Typ[types.UntypedNil]}
		case "#i":
			if c.lc == nil {
				c.fail("#i outside a loop")
			}
			return svInt(c.lc.iter)
		}
		if v, ok := c.vars[e.Name]; ok {
			return v
		}
		if m, ok := x.w.db.Macros[e.Name]; ok && len(m.Params) == 0 {
			return c.macro(m, nil)
		}
		c.fail("unknown identifier %s", e.Name)
	case ".":
		if o, ok := c.qualified(e); ok {
			switch o := o.(type) {
			case *types.Const:
				return c.constSV(o.Val(), o.Type())
			case *types.Var:
				lv, t := c.lval(e)
				return SV{x.load(c.st, lv), t}
			}
		}
		if lv, t := c.lval(e); lv != nil {
			return SV{x.load(c.st, lv), t}
		}
		v := c.eval(e.Args[0])
		if st, ok := v.T.Underlying().(*types.Struct); ok {
			w := c.vt(v)
			_, path, _ := types.LookupFieldOrMethod(v.T, true, x.w.pkgOf(v.T), e.Name)
			if len(path) == 1 {
				lo, hi := fieldRange(v.T, path[0])
				ft := st.Field(path[0]).Type()
				return SV{&VT{w.L[lo:hi], ft}, ft}
			}
			if len(path) > 1 {
				cur := v
				for _, i := range path {
					s := cur.T.Underlying().(*types.Struct)
					cw := c.vt(cur)
					lo, hi := fieldRange(cur.T, i)
					cur = SV{&VT{cw.L[lo:hi], s.Field(i).Type()}, s.Field(i).Type()}
				}
				return cur
			}
		}
		c.fail("no field %s in %v (%s)", e.Name, v.T, exprStr(e))
	case "[]":
		b := c.eval(e.Args[0])
		switch u := b.T.Underlying().(type) {
		case *types.Map:
			k := c.term(c.eval(e.Args[1]))
			touch(k)
			if k.S != mapKeySort(u) {
				c.fail("a key of the wrong sort for %v", u)
			}
			return SV{x.mapVal(c.st, u, c.term(b), k), u.Elem()}
		case *types.Slice:
			w := c.vt(b)
			return SV{x.sliceElem(c.st, w, u.Elem(), c.intE(e.Args[1])), u.Elem()}
		case *types.Array:
			w := c.vt(b)
			i := c.intE(e.Args[1])
			out := &VT{T: u.Elem()}
			for _, l := range w.L {
				out.L = append(out.L, Select(l, i))
			}
			return SV{out, u.Elem()}
		case *types.Basic:
			return svInt(UF("strat", SInt, c.term(b), c.intE(e.Args[1])))
		}
		c.fail("cannot index %v", b.T)
	case "un":
		if e.Name == "!" {
			return svBool(Not(c.boolE(e.Args[0])))
		}
		return svInt(Neg(c.intE(e.Args[0])))
	case "if":
		cd := c.boolE(e.Args[0])
		if cd == True {
			return c.eval(e.Args[1])
		}
		if cd == False {
			return c.eval(e.Args[2])
		}
		a, b := c.eval(e.Args[1]), c.eval(e.Args[2])
		va, vb := c.vt(a), c.vt(b)
		out := &VT{T: a.T}
		if len(va.L) != len(vb.L) {
			c.fail("branches differ in %s", exprStr(e))
		}
		for i := range va.L {
			out.L = append(out.L, Ite(cd, va.L[i], vb.L[i]))
		}
		return SV{out, a.T}
	case "let":
		return c.with(e.Name, c.eval(e.Args[0])).eval(e.Args[1])
	case "bin":
		return c.bin(e)
	case "forall", "exists":
		return svBool(c.quant(e))
	case "sum":
		return svInt(c.sum(e))
	case "call":
		return c.call(e)
	}
	c.fail("cannot evaluate %s", exprStr(e))
	return SV{}
}

func (c *sctx) constSV(v constant.Value, t types.Type) SV {
	switch v.Kind() {
	case constant.String:
		return SV{vt(t, StrLit(constant.StringVal(v))), t}
	case constant.Bool:
		return SV{vt(t, BoolT(constant.BoolVal(v))), t}
	case constant.Int:
		i := constant.ToInt(v)
		return SV{vt(t, mustBig(i.ExactString())), t}
	}
	c.fail("constant kind")
	return SV{}
}

func mustBig(s string) *Term {
	e := new(bigIntT)
	e.SetString(s, 10)
	return IntB(e)
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (c *sctx) eq(a, b SV) *Term {
	if isNilT(a.T) || isNilT(b.T) {
		v := a
		if isNilT(a.T) {
			v = b
		}
		if lv, ok := v.V.(*LV); ok && (lv.Path != "" || lv.Kind != 1) {
			return False
		}
		if _, ok := v.V.(*VClosure); ok {
			return False
		}
		return Eq(c.vt(v).L[0], Int(0))
	}
	va, vb := c.vt(a), c.vt(b)
	if _, ok := a.T.Underlying().(*types.Array); ok {
		return c.x.arrEq(va, vb, a.T)
	}
	if len(va.L) != len(vb.L) {
		c.fail("comparison of %v with %v", a.T, b.T)
	}
	// structs: field by field (embedded arrays by content)
	return c.leavesEq(a.T, va.L, vb.L)
}

func (c *sctx) leavesEq(t types.Type, a, b []*Term) *Term {
	if st, ok := t.Underlying().(*types.Struct); ok && !atomicStructs[shortType(t)] {
		var cs []*Term
		for i := 0; i < st.NumFields(); i++ {
			lo, hi := fieldRange(t, i)
			cs = append(cs, c.leavesEq(st.Field(i).Type(), a[lo:hi], b[lo:hi]))
		}
		return And(cs...)
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return c.x.arrEq(&VT{a, t}, &VT{b, t}, t)
	}
	var cs []*Term
	for i := range a {
		if a[i].S != b[i].S {
			c.fail("sort mismatch in comparison at %v: %s vs %s", t, a[i].S, b[i].S)
		}
		cs = append(cs, Eq(a[i], b[i]))
	}
	return And(cs...)
}

func (c *sctx) bin(e *Expr) SV {
	switch e.Name {
	case "&&":
		a := c.boolE(e.Args[0])
		if a == False {
			return svBool(False)
		}
		return svBool(And(a, c.boolE(e.Args[1])))
	case "||":
		a := c.boolE(e.Args[0])
		if a == True {
			return svBool(True)
		}
		return svBool(Or(a, c.boolE(e.Args[1])))
	case "==>":
		n := *c
		n.asm = false
		a := n.boolE(e.Args[0])
		if a == False {
			return svBool(True)
		}
		return svBool(Implies(a, c.boolE(e.Args[1])))
	case "<==>":
		return svBool(Eq(c.boolE(e.Args[0]), c.boolE(e.Args[1])))
	case "==":
		return svBool(c.eq(c.eval(e.Args[0]), c.eval(e.Args[1])))
	case "!=":
		return svBool(Not(c.eq(c.eval(e.Args[0]), c.eval(e.Args[1]))))
	case "in":
		return svBool(c.member(c.eval(e.Args[0]), e.Args[1]))
	}
	if e.Name == "+" {
		a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
		ta, tb := c.term(a), c.term(b)
		if ta.S == SStr {
			return svStr(UF("strcat", SStr, ta, tb))
		}
		return svInt(Add(ta, tb))
	}
	a, b := c.intE(e.Args[0]), c.intE(e.Args[1])
	switch e.Name {
	case "-":
		return svInt(Sub(a, b))
	case "*":
		if a.K != KInt && b.K != KInt {
			usesNL = true
		}
		return svInt(Mul(a, b))
	case "/":
		if b.K != KInt {
			usesNL = true
		}
		return svInt(Div(a, b))
	case "%":
		if b.K != KInt {
			usesNL = true
		}
		return svInt(Mod(a, b))
	case "<=":
		return svBool(Le(a, b))
	case "<":
		return svBool(Lt(a, b))
	case ">=":
		return svBool(Ge(a, b))
	case ">":
		return svBool(Gt(a, b))
	}
	c.fail("operator %s", e.Name)
	return SV{}
}

func (c *sctx) member(k SV, s *Expr) *Term {
	if s.Op == "id" && s.Name == "#visited" {
		if c.lc == nil || len(c.lc.iters) != 1 {
			c.fail("#visited needs a loop over a map")
		}
		return Select(c.x.hget(c.st, c.lc.iters[0].Key), c.term(k))
	}
	v := c.eval(s)
	m, ok := v.T.Underlying().(*types.Map)
	if !ok {
		c.fail("%s is not a map", exprStr(s))
	}
	kt := c.term(k)
	touch(kt)
	r := c.term(v)
	in := Select(c.x.mapDom(c.st, m, r), kt)
	if r.K != KInt && !c.x.knownNonNil(c.st, r) {
		in = And(Ne(r, Int(0)), in)
	}
	return in
}

func (c *sctx) goType(n string) types.Type {
	switch n {
	case "int", "ref":
		return mInt
	case "string", "str":
		return mStr
	case "bool":
		return mBool
	case "uint64":
		return types.Typ[types.Uint64]
	case "int64":
		return types.Typ[types.Int64]
	case "byte", "uint8":
		return types.Typ[types.Uint8]
	}
	c.fail("unknown type %s", n)
	return nil
}

// bind introduces bound variables; it returns the extended context, the variables and the guard.
func (c *sctx) bind(bs []bvar) (*sctx, []*Term, *Term) {
	n := c
	var vs []*Term
	g := True
	for _, b := range bs {
		switch b.kind {
		case "in":
			if b.dom.Op == "id" && b.dom.Name == "#visited" {
				if n.lc == nil || len(n.lc.iters) != 1 {
					n.fail("#visited needs a loop over a map")
				}
				kt := n.lc.iters[0].MT.Key()
				v := n.boundVar(b.name, leavesOf(kt)[0].S, bs)
				vs = append(vs, v)
				n = n.with(b.name, SV{vt(kt, v), kt})
				g = And(g, Select(n.x.hget(n.st, n.lc.iters[0].Key), v))
				continue
			}
			d := n.eval(b.dom)
			m, ok := d.T.Underlying().(*types.Map)
			if !ok {
				n.fail("%s is not a map", exprStr(b.dom))
			}
			v := n.boundVar(b.name, mapKeySort(m), bs)
			vs = append(vs, v)
			g = And(g, Select(n.x.mapDom(n.st, m, n.term(d)), v))
			n = n.with(b.name, SV{vt(m.Key(), v), m.Key()})
		case "range":
			lo, hi := n.intE(b.lo), n.intE(b.hi)
			v := n.boundVar(b.name, SInt, bs)
			vs = append(vs, v)
			g = And(g, Le(lo, v), Lt(v, hi))
			n = n.with(b.name, SV{vt(mInt, v), mInt})
		case "type":
			t := n.goType(b.typ)
			s := leavesOf(t)[0].S
			v := n.boundVar(b.name, s, bs)
			vs = append(vs, v)
			if lo, hi, ok := intRange(t); ok && s == SInt {
				g = And(g, Le(IntB(lo), v), Le(v, IntB(hi)))
			}
			n = n.with(b.name, SV{vt(t, v), t})
		}
	}
	return n, vs, g
}

// bound variables are named after their source name so that equal formulas are identical terms;
// nested quantifiers over the same name get a fresh variable.
func (c *sctx) boundVar(name string, s Sort, bs []bvar) *Term {
	k := "q." + name
	for i := 0; ; i++ {
		kk := fmt.Sprintf("%s.%d.%s", k, i, s)
		used := false
		for _, v := range c.vars {
			if w, ok := v.V.(*VT); ok {
				for _, l := range w.L {
					for _, f := range l.free {
						if f == closedBounds[kk] && f != nil {
							used = true
						}
					}
				}
			}
		}
		if !used {
			return closedBound2(kk, name, s)
		}
	}
}
func closedBound2(k, h string, s Sort) *Term {
	if b, ok := closedBounds[k]; ok {
		return b
	}
	b := BoundVar("s"+sanitize(h), s)
	closedBounds[k] = b
	return b
}

func (c *sctx) quant(e *Expr) *Term {
	// a constant range is spelled out
	if len(e.B) == 1 && e.B[0].kind == "range" {
		lo, hi := c.intE(e.B[0].lo), c.intE(e.B[0].hi)
		if lo.K == KInt && hi.K == KInt && lo.I.IsInt64() && hi.I.IsInt64() && hi.I.Int64()-lo.I.Int64() <= 32 {
			var ts []*Term
			for i := lo.I.Int64(); i < hi.I.Int64(); i++ {
				ts = append(ts, c.with(e.B[0].name, SV{vt(mInt, Int(i)), mInt}).boolE(e.Args[0]))
			}
			if e.Op == "exists" {
				return Or(ts...)
			}
			return And(ts...)
		}
	}
	n, vs, g := c.bind(e.B)
	if e.Op == "exists" {
		return mkExists(vs, And(g, n.boolE(e.Args[0])))
	}
	body := Implies(g, n.boolE(e.Args[0]))
	if len(e.Trig) > 0 && body != True && body != False {
		var ps []*Term
		for _, t := range e.Trig {
			ps = append(ps, n.term(n.eval(t)))
		}
		return Forall(vs, body, ps)
	}
	return mkForall(vs, body)
}

// mkForall builds a quantified formula with triggers; slice indices base+i are renamed to absolute indices.
func mkForall(vs []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	for i, v := range vs {
		if v.S != SInt {
			continue
		}
		bases := offsetsOf(body, v)
		if len(bases) == 1 && bases[0] != Int(0) {
			body = Subst(body, map[*Term]*Term{v: Sub(v, bases[0])})
		} else if len(bases) > 1 && len(bases) <= 3 && len(vs) == 1 && i == 0 {
			var cs []*Term
			for _, b := range bases {
				bd := body
				if b != Int(0) {
					bd = Subst(body, map[*Term]*Term{v: Sub(v, b)})
				}
				var only [][]*Term
				for _, p := range patsFor(bd, v) {
					only = append(only, p)
				}
				cs = append(cs, Forall(vs, bd, only...))
			}
			return And(cs...)
		}
	}
	if len(vs) == 1 {
		ps := patsFor(body, vs[0])
		if len(ps) > 0 {
			return Forall(vs, body, ps...)
		}
		return Forall(vs, body)
	}
	if len(vs) >= 2 {
		if ps := patsAll(body, vs); len(ps) > 0 {
			return Forall(vs, body, ps...)
		}
	}
	if len(vs) == 2 {
		p0, p1 := patsFor(body, vs[0]), patsFor(body, vs[1])
		var ps [][]*Term
		for _, a := range p0 {
			for _, b := range p1 {
				if len(ps) < 4 && len(b[0].free) == 1 && len(a[0].free) == 1 {
					ps = append(ps, []*Term{a[0], b[0]})
				}
			}
		}
		if len(ps) > 0 {
			return Forall(vs, body, ps...)
		}
	}
	return Forall(vs, body)
}

// mkExists: an existential with triggers for when it is refuted (reads of the array before an update count as well)
func mkExists(vs []*Term, body *Term) *Term {
	if len(vs) != 1 || vs[0].S != SInt {
		return Exists(vs, body)
	}
	v := vs[0]
	if bs := offsetsOf(body, v); len(bs) == 1 && bs[0] != Int(0) {
		body = Subst(body, map[*Term]*Term{v: Sub(v, bs[0])})
	}
	ps := patsFor(body, v)
	n := len(ps)
	for i := 0; i < n; i++ {
		t := ps[i][0]
		for len(ps[i]) == 1 && t.K == KApp && t.Op == "select" && t.Args[1] == v && t.Args[0].K == KApp && t.Args[0].Op == "store" {
			t = app("select", t.S, t.Args[0].Args[0], v)
			ps = append(ps, []*Term{t})
		}
	}
	return Exists(vs, body, ps...)
}

// offsetsOf: the closed terms b such that body reads an array at index b+v
func offsetsOf(t, v *Term) []*Term {
	var bases []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !hasFree(t, v) {
			return
		}
		seen[t] = true
		if t.K == KApp && t.Op == "select" && hasFree(t.Args[1], v) {
			d := Sub(t.Args[1], v)
			if !hasFree(d, v) && len(d.free) == 0 {
				dup := false
				for _, b := range bases {
					if b == d {
						dup = true
					}
				}
				if !dup {
					bases = append(bases, d)
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return bases
}

func hasFree(t, v *Term) bool {
	for _, f := range t.free {
		if f == v {
			return true
		}
	}
	return false
}

var noPatOps = map[string]bool{"+": true, "*c": true, "*": true, "div": true, "mod": true, "<=": true, "not": true, "and": true, "or": true, "=>": true, "ite": true, "=": true, "const": true, "store": true}

// patsAll: smallest uninterpreted applications that mention all the variables, each as a direct argument of some application
func patsAll(t *Term, vs []*Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(t.free) == 0 {
			return
		}
		seen[t] = true
		if t.K == KApp && !noPatOps[t.Op] && len(t.free) == len(vs) {
			ok := true
			for _, v := range vs {
				direct := false
				for _, a := range t.Args {
					if a == v {
						direct = true
					}
				}
				ok = ok && direct
			}
			if ok {
				out = append(out, []*Term{t})
				return
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return out
}

// patsFor: single triggers for v: minimal uninterpreted applications having v as a direct argument
func patsFor(t, v *Term) [][]*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var pure func(t *Term) bool
	pm := map[*Term]bool{}
	pure = func(t *Term) bool {
		if r, ok := pm[t]; ok {
			return r
		}
		r := true
		if t.K == KApp && noPatOps[t.Op] && len(t.free) > 0 {
			r = false
		} else if t.K != KApp && t.K != KVar && len(t.free) > 0 && t != v && t.K != KInt && t.K != KStr {
			r = t.K == KBound
		}
		if t.K == KForall || t.K == KExists {
			r = false
		}
		if r {
			for _, a := range t.Args {
				if !pure(a) {
					r = false
					break
				}
			}
		}
		pm[t] = r
		return r
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !hasFree(t, v) {
			return
		}
		seen[t] = true
		if t.K == KApp && !noPatOps[t.Op] && len(t.free) == 1 && pure(t) {
			direct := false
			for _, a := range t.Args {
				if a == v {
					direct = true
				}
			}
			if direct {
				// no other argument may contain v below (keep minimal triggers)
				out = append(out, t)
				return
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	// triggers that are implied by the guard come first; the rest stay in order of appearance
	sort.SliceStable(out, func(i, j int) bool { return termSize(out[i]) < termSize(out[j]) })
	var ps [][]*Term
	for _, o := range out {
		if len(ps) < 6 {
			ps = append(ps, []*Term{o})
		}
	}
	return ps
}

var sizeMemo = map[*Term]int{}

func termSize(t *Term) int {
	if s, ok := sizeMemo[t]; ok {
		return s
	}
	n := 1
	for _, a := range t.Args {
		n += termSize(a)
		if n > 1<<20 {
			n = 1 << 20
		}
	}
	sizeMemo[t] = n
	return n
}

// sum k in M :: body / sum i in lo..hi :: body
func (c *sctx) sum(e *Expr) *Term {
	if len(e.B) != 1 {
		c.fail("sum takes one bound variable")
	}
	b := e.B[0]
	n, vs, g := c.bind(e.B)
	body := n.intE(e.Args[0])
	v := vs[0]
	var hi *Term
	shape := "m:" + v.S
	if b.kind == "range" {
		hi = c.intE(b.hi)
		shape = "r"
		if c.intE(b.lo) != Int(0) {
			c.fail("range sums start at 0")
		}
	} else if b.kind != "in" {
		c.fail("sum over a type")
	}
	return SumOf(compView(v, g, body, hi, shape))
}

var compCache = map[*Term]*Term{}

// compView defines view[k] = ite(guard(k), body(k), 0).
func compView(v, guard, body, hi *Term, shape string) *Term {
	def := Ite(guard, body, Int(0))
	if def.K != KApp || len(def.free) == 0 {
		if def == Int(0) {
			return ConstArr(ArrS(v.S, SInt), Int(0))
		}
	}
	key := app("compkey", SInt, def, v)
	if t, ok := compCache[key]; ok {
		return t
	}
	for _, f := range def.free {
		if f != v {
			panic(specErr("sum under a quantifier"))
		}
	}
	name := fmt.Sprintf("comp!%d", len(compCache))
	t := Var(name, ArrS(v.S, SInt))
	compCache[key] = t
	compBySym[name] = &CompInfo{sym: name, sort: t.S, shape: shape, hi: hi, skel: heapRoots(def)}
	sel := app("select", SInt, t, v)
	addAxiom(name, Forall([]*Term{v}, Eq(sel, def), []*Term{sel}))
	return t
}

func (c *sctx) macro(m *MacroDef, args []SV) SV {
	n := *c
	n.vars = map[string]SV{}
	for i, p := range m.Params {
		n.vars[p] = args[i]
	}
	n.src = c.src + ">" + m.Name
	return n.eval(m.Body)
}

// built-in function symbols of the models that contracts may mention
var ufAlias = map[string]struct {
	sym string
	res Sort
}{
	"lower": {"strlower", SStr}, "hexenc": {"hexenc", SStr}, "addrstr": {"addrstr", SStr}, "hexaddr": {"hexaddr", SStr},
	"itoa": {"itoa", SStr}, "cat": {"strcat", SStr}, "strlen": {"strlen", SInt}, "substr": {"substr", SStr}, "strat": {"strat", SInt},
	"sha256": {"sha256", SStr}, "keccak": {"keccak", SStr}, "bebytes": {"bebytes", SInt}, "be32": {"be32", SStr}, "jsonstr": {"jsonstr", SStr}, "unjsonstr": {"unjsonstr", SStr},
	"isjsonstr": {"isjsonstr", SBool}, "strlt": {"strlt", SBool}, "valstatestr": {"valstatestr", SStr},
	"txValue": {"tx.Value", SInt}, "txGasPrice": {"tx.GasPrice", SInt}, "txGasTipCap": {"tx.GasTipCap", SInt}, "txGasFeeCap": {"tx.GasFeeCap", SInt},
	"txType": {"tx.Type", SInt}, "txHash": {"txhash", SStr}, "txTo": {"tx.To", SStr}, "txIsCreate": {"tx.IsCreate", SBool}, "txSender": {"tx.Sender", SStr},
	"txSenderOk": {"tx.senderok", SBool}, "txDecode": {"txdecode", SInt}, "txOk": {"txok", SBool}, "signerOf": {"signer", SInt},
	"errtext": {"errtext", SStr},
}

func (c *sctx) call(e *Expr) SV {
	x := c.x
	arg := func(i int) SV {
		if i >= len(e.Args) {
			c.fail("missing argument in %s", exprStr(e))
		}
		return c.eval(e.Args[i])
	}
	switch e.Name {
	case "old":
		if c.old == nil {
			c.fail("old() is not available here")
		}
		n := *c
		n.st = c.old
		v := n.eval(e.Args[0])
		return v
	case "pre":
		if c.pre == nil {
			c.fail("pre() outside a loop invariant")
		}
		n := *c
		n.st = c.pre
		return n.eval(e.Args[0])
	case "big":
		x.regBig()
		return svInt(c.st.read(x.hget(c.st, "Big"), c.vt(arg(0)).L[0]))
	case "len":
		a := arg(0)
		return svInt(x.lenOf(c.st, a.V, a.T))
	case "card":
		a := arg(0)
		return svInt(x.lenOf(c.st, a.V, a.T))
	case "ref":
		return svInt(c.vt(arg(0)).L[0])
	case "off":
		return svInt(c.vt(arg(0)).L[1])
	case "fresh":
		a := c.vt(arg(0)).L[0]
		if c.old == nil {
			c.fail("fresh() needs a pre-state")
		}
		return svBool(And(Lt(c.old.alloc, a), Le(a, c.st.alloc)))
	case "newhere":
		// allocated since the loop was entered
		a := c.vt(arg(0)).L[0]
		if c.lc == nil {
			c.fail("newhere() needs a loop")
		}
		return svBool(And(Lt(c.lc.entry.alloc, a), Le(a, c.st.alloc)))
	case "allocated":
		a := c.vt(arg(0)).L[0]
		return svBool(And(Le(Int(0), a), Le(a, c.st.alloc)))
	case "str":
		a := arg(0)
		w := c.vt(a)
		switch u := a.T.Underlying().(type) {
		case *types.Slice:
			return svStr(x.seqStr(c.st, &VT{w.L, a.T}))
		case *types.Array:
			return svStr(SeqStr(w.L[0], Int(0), Int(u.Len())))
		case *types.Basic:
			return svStr(w.L[0])
		}
		c.fail("str(%v)", a.T)
	case "hex": // 0x-prefixed lower-case hex of the bytes
		return svStr(hex0x(c.term(c.call(&Expr{Op: "call", Name: "str", Args: e.Args}))))
	case "abs":
		t := c.intE(e.Args[0])
		return svInt(Ite(Le(Int(0), t), t, Neg(t)))
	case "min":
		a, b := c.intE(e.Args[0]), c.intE(e.Args[1])
		return svInt(Ite(Le(a, b), a, b))
	case "max":
		a, b := c.intE(e.Args[0]), c.intE(e.Args[1])
		return svInt(Ite(Le(a, b), b, a))
	case "indicator":
		return svInt(Ite(c.boolE(e.Args[0]), Int(1), Int(0)))
	case "u64":
		return svInt(Mod(c.intE(e.Args[0]), IntB(two64)))
	case "low64":
		return svInt(bigLow64(c.intE(e.Args[0])))
	case "own":
		return svBool(c.own(e))
	case "sameheap":
		// sameheap(KEY...): whole heap components unchanged since the old state
		var cs []*Term
		for _, a := range e.Args {
			k := a.Name
			cs = append(cs, Eq(x.hget(c.st, k), x.hget(c.old, k)))
		}
		return svBool(And(cs...))
	case "txof": // content of a *types.Transaction
		v := arg(0)
		el, _ := isPtr(v.T)
		return svInt(x.load(c.st, x.pointee(v.V, el)).(*VT).L[0])
	case "deref":
		v := arg(0)
		el, ok := isPtr(v.T)
		if !ok {
			c.fail("deref of %v", v.T)
		}
		return SV{x.load(c.st, x.pointee(v.V, el)), el}
	case "jsonOf":
		v := arg(0)
		return svStr(x.jsonOf(c.st, v.T, c.vt(v)))
	}
	if m, ok := x.w.db.Macros[e.Name]; ok {
		if len(m.Params) != len(e.Args) {
			c.fail("%s takes %d arguments", e.Name, len(m.Params))
		}
		var as []SV
		for i := range e.Args {
			as = append(as, arg(i))
		}
		return c.macro(m, as)
	}
	if a, ok := ufAlias[e.Name]; ok {
		var ts []*Term
		for i := range e.Args {
			v := arg(i)
			if arr, ok := v.T.Underlying().(*types.Array); ok && c.term(v).S == ArrS(SInt, SInt) { // a byte array stands for its contents
				ts = append(ts, UF("seqstr", SStr, c.term(v), Int(0), Int(arr.Len())))
				continue
			}
			ts = append(ts, c.term(v))
		}
		return c.ofSort(c.uf(a.sym, a.res, ts...))
	}
	if u, ok := x.w.db.UFs[e.Name]; ok {
		var ts []*Term
		if len(e.Args) != len(u.Args) {
			c.fail("%s takes %d arguments", e.Name, len(u.Args))
		}
		for i := range e.Args {
			a := arg(i)
			t := c.vt(a).L[0]
			if want := sortName(u.Args[i]); t.S != want {
				c.fail("%s: argument %d has sort %s", e.Name, i, t.S)
			}
			ts = append(ts, t)
		}
		return c.ofSort(UF("u."+u.Name, sortName(u.Res), ts...))
	}
	c.fail("unknown function %s", e.Name)
	return SV{}
}

func sortName(n string) Sort {
	switch n {
	case "int", "ref":
		return SInt
	case "str":
		return SStr
	case "bool":
		return SBool
	case "arr":
		return ArrS(SInt, SInt)
	}
	panic(specErr("unknown sort " + n))
}

func (c *sctx) ofSort(t *Term) SV {
	switch t.S {
	case SInt:
		return svInt(t)
	case SBool:
		return svBool(t)
	}
	return svStr(t)
}

type ownFam struct {
	vs  []*Term
	g   *Term
	ref *Term
	e   *Expr
}

// own(f1, f2, ...): the listed object references (single, or families "forall k in M :: ref") are pairwise different.
func (c *sctx) own(e *Expr) *Term {
	var fs []ownFam
	mk := func(second bool) []ownFam {
		var out []ownFam
		for _, a := range e.Args {
			if a.Op == "forall" {
				ctx := c
				b := a
				if second {
					nb := append([]bvar{}, a.B...)
					body := a.Args[0]
					for i := range nb {
						nn := nb[i].name + "_2"
						body = renameId(body, nb[i].name, nn)
						nb[i].name = nn
					}
					b = &Expr{Op: "forall", B: nb, Args: []*Expr{body}}
				}
				n, vs, g := ctx.bind(b.B)
				out = append(out, ownFam{vs, g, n.vt(n.eval(b.Args[0])).L[0], a})
			} else {
				out = append(out, ownFam{nil, True, c.vt(c.eval(a)).L[0], a})
			}
		}
		return out
	}
	fs = mk(false)
	var cs []*Term
	if c.asm {
		sig := Int(0)
		for _, f := range fs {
			sig = app("ownsig", SInt, sig, f.g, f.ref)
		}
		tag, ix := fmt.Sprintf("own.t!%d", sig.id), fmt.Sprintf("own.i!%d", sig.id)
		for i, f := range fs {
			cl := []*Term{Eq(UF(tag, SInt, f.ref), Int(int64(i)+1))}
			for j, v := range f.vs {
				nm := fmt.Sprintf("%s.%d.%s", ix, j, sanitize(v.S))
				cl = append(cl, Eq(UF(nm, v.S, f.ref), v))
			}
			if len(f.vs) == 0 {
				cs = append(cs, cl...)
				continue
			}
			body := Implies(f.g, And(cl...))
			cs = append(cs, mkForall(f.vs, body))
		}
		return And(cs...)
	}
	gs := mk(true)
	for i := range fs {
		for j := i; j < len(fs); j++ {
			a, b := fs[i], gs[j]
			if len(a.vs) == 0 && len(b.vs) == 0 {
				if i != j {
					cs = append(cs, Ne(a.ref, b.ref))
				}
				continue
			}
			if i == j {
				var same []*Term
				for q := range a.vs {
					same = append(same, Eq(a.vs[q], b.vs[q]))
				}
				cs = append(cs, Forall(append(append([]*Term{}, a.vs...), b.vs...), Implies(And(a.g, b.g, Eq(a.ref, b.ref)), And(same...))))
				continue
			}
			cs = append(cs, Forall(append(append([]*Term{}, a.vs...), b.vs...), Implies(And(a.g, b.g), Ne(a.ref, b.ref))))
		}
	}
	return And(cs...)
}

func renameId(e *Expr, from, to string) *Expr {
	if e == nil {
		return nil
	}
	n := *e
	if e.Op == "id" && e.Name == from {
		n.Name = to
		return &n
	}
	n.Args = nil
	for _, a := range e.Args {
		n.Args = append(n.Args, renameId(a, from, to))
	}
	n.B = nil
	for _, b := range e.B {
		b.dom, b.lo, b.hi = renameId(b.dom, from, to), renameId(b.lo, from, to), renameId(b.hi, from, to)
		n.B = append(n.B, b)
	}
	return &n
}

// uf is UF with an ill-sorted application reported as a specification error.
func (c *sctx) uf(name string, res Sort, ts ...*Term) *Term {
	if old, ok := sigs[name]; ok {
		bad := len(old) != len(ts)+1
		for i := range ts {
			bad = bad || old[i] != ts[i].S
		}
		if bad {
			c.fail("%s applied to arguments of the wrong kind", name)
		}
	}
	return UF(name, res, ts...)
}
