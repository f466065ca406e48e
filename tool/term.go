package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- terms

type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
)

func ArrS(i, e Sort) Sort { return "(Array " + i + " " + e + ")" }

// element / index sort of an array sort
func arrParts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	// split at top-level space
	depth := 0
	for i, c := range in {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func arrElem(s Sort) Sort { _, e := arrParts(s); return e }
func arrIdx(s Sort) Sort  { i, _ := arrParts(s); return i }

type Kind uint8

const (
	KVar Kind = iota
	KInt
	KBool
	KStr
	KApp
	KForall
	KExists
	KBound
)

type Term struct {
	K    Kind
	Op   string // var name / function symbol
	Args []*Term
	S    Sort
	I    *big.Int
	Str  string
	B    bool
	id   int
	Bnd  []*Term // quantifier bound vars
	Pats [][]*Term
	free []*Term // free bound variables (sorted by id)
}

var tt = map[string]*Term{}
var tcount int

func intern(key string, mk func() *Term) *Term {
	if t, ok := tt[key]; ok {
		return t
	}
	t := mk()
	tcount++
	t.id = tcount
	t.computeFree()
	tt[key] = t
	return t
}

func (t *Term) computeFree() {
	if t.K == KBound {
		t.free = []*Term{t}
		return
	}
	m := map[int]*Term{}
	for _, a := range t.Args {
		for _, f := range a.free {
			m[f.id] = f
		}
	}
	for _, b := range t.Bnd {
		delete(m, b.id)
	}
	if len(m) == 0 {
		return
	}
	for _, f := range m {
		t.free = append(t.free, f)
	}
	sort.Slice(t.free, func(i, j int) bool { return t.free[i].id < t.free[j].id })
}

var sigs = map[string][]Sort{} // function symbol -> arg sorts + result sort

var (
	True  = intern("true", func() *Term { return &Term{K: KBool, B: true, S: SBool} })
	False = intern("false", func() *Term { return &Term{K: KBool, B: false, S: SBool} })
)

func Int(i int64) *Term { return IntB(big.NewInt(i)) }
func IntB(i *big.Int) *Term {
	return intern("i"+i.String(), func() *Term { return &Term{K: KInt, I: new(big.Int).Set(i), S: SInt} })
}
func StrLit(s string) *Term {
	return intern("s"+strconv.Quote(s), func() *Term { return &Term{K: KStr, Str: s, S: SStr} })
}
func Var(name string, s Sort) *Term {
	return intern("v"+name, func() *Term { return &Term{K: KVar, Op: name, S: s} })
}

var freshN = map[string]int{}
var freshPrefix = ""

func Fresh(hint string, s Sort) *Term {
	hint = sanitize(hint)
	freshN[hint]++
	return Var(fmt.Sprintf("%s!%d", hint, freshN[hint]), s)
}

var boundN int

func BoundVar(hint string, s Sort) *Term {
	boundN++
	n := fmt.Sprintf("%s?%d", sanitize(hint), boundN)
	return intern("b"+n, func() *Term { return &Term{K: KBound, Op: n, S: s} })
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' || c == '?' || c == '@' || c == '#' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func app(op string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("a")
	sb.WriteString(op)
	if op == "const" {
		sb.WriteString(s)
	}
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *Term { return &Term{K: KApp, Op: op, Args: args, S: s} })
}

// UF builds an application of an uninterpreted function.
func UF(name string, res Sort, args ...*Term) *Term {
	sg := make([]Sort, 0, len(args)+1)
	for _, a := range args {
		sg = append(sg, a.S)
	}
	sg = append(sg, res)
	if old, ok := sigs[name]; ok {
		if strings.Join(old, ",") != strings.Join(sg, ",") {
			panic(fmt.Sprintf("UF %s used with signatures %v and %v", name, old, sg))
		}
	} else {
		sigs[name] = sg
	}
	if len(args) == 0 {
		return Var(name, res)
	}
	return simpUF(name, res, args)
}

// strings of known length
var fixedLen = map[string]int64{"sha256": 32, "keccak": 32, "addrstr": 42, "txhash": 32, "sha3bytes": 32}

// half of t when every coefficient of t is even
func halfOf(t *Term) (*Term, bool) {
	p := newPoly()
	p.addTerm(t, bigOne)
	if p.c.Bit(0) != 0 {
		return nil, false
	}
	r := newPoly()
	r.c.Quo(p.c, big.NewInt(2))
	for k, m := range p.ms {
		if m.c.Bit(0) != 0 {
			return nil, false
		}
		r.ms[k] = &mono{m.atoms, new(big.Int).Quo(m.c, big.NewInt(2))}
	}
	return r.term(), true
}

func simpUF(name string, res Sort, args []*Term) *Term {
	switch name {
	case "strlower":
		a := args[0]
		if a.K == KStr {
			return StrLit(strings.ToLower(a.Str))
		}
		if a.K == KApp {
			switch a.Op {
			case "strlower", "hexenc":
				return a
			case "addrstr": // checksummed address
				return UF("strcat", SStr, StrLit("0x"), UF("hexenc", SStr, a.Args[0]))
			case "itoa":
				return a
			case "strcat":
				return UF("strcat", SStr, UF("strlower", SStr, a.Args[0]), UF("strlower", SStr, a.Args[1]))
			case "substr":
				return UF("substr", SStr, UF("strlower", SStr, a.Args[0]), a.Args[1], a.Args[2])
			}
		}
	case "strlen":
		a := args[0]
		if a.K == KStr {
			return Int(int64(len(a.Str)))
		}
		if a.K == KApp {
			switch a.Op {
			case "strlower":
				return UF("strlen", SInt, a.Args[0])
			case "strcat":
				return Add(UF("strlen", SInt, a.Args[0]), UF("strlen", SInt, a.Args[1]))
			case "substr":
				return Sub(a.Args[2], a.Args[1])
			case "seqstr":
				return a.Args[2]
			}
			if n, ok := fixedLen[a.Op]; ok {
				return Int(n)
			}
			if a.Op == "hexenc" {
				return MulC(2, UF("strlen", SInt, a.Args[0]))
			}
		}
	case "strcat":
		if args[0].K == KStr && args[1].K == KStr {
			return StrLit(args[0].Str + args[1].Str)
		}
		if args[0].K == KStr && args[0].Str == "" {
			return args[1]
		}
		if args[1].K == KStr && args[1].Str == "" {
			return args[0]
		}
		// right-nest
		if args[0].K == KApp && args[0].Op == "strcat" {
			return UF("strcat", SStr, args[0].Args[0], UF("strcat", SStr, args[0].Args[1], args[1]))
		}
	case "substr":
		a := args[0]
		if a.K == KStr && args[1].K == KInt && args[2].K == KInt {
			i, j := args[1].I.Int64(), args[2].I.Int64()
			if 0 <= i && i <= j && j <= int64(len(a.Str)) {
				return StrLit(a.Str[i:j])
			}
		}
		if args[1].K == KInt && args[1].I.Sign() == 0 && args[2] == UF("strlen", SInt, a) {
			return a
		}
		if a.K == KApp && a.Op == "substr" {
			return UF("substr", SStr, a.Args[0], Add(a.Args[1], args[1]), Add(a.Args[1], args[2]))
		}
		if a.K == KApp && a.Op == "hexenc" {
			if lo, ok := halfOf(args[1]); ok {
				if hi, ok := halfOf(args[2]); ok {
					return UF("hexenc", SStr, UF("substr", SStr, a.Args[0], lo, hi))
				}
			}
		}
		if a.K == KApp && a.Op == "seqstr" {
			return UF("seqstr", SStr, a.Args[0], Add(a.Args[1], args[1]), Sub(args[2], args[1]))
		}
		if a.K == KApp && a.Op == "strcat" && a.Args[0].K == KStr {
			// cut a literal prefix
			n := int64(len(a.Args[0].Str))
			if args[1].K == KInt && args[1].I.Int64() >= n {
				return UF("substr", SStr, a.Args[1], Sub(args[1], Int(n)), Sub(args[2], Int(n)))
			}
			if args[1].K == KInt && args[2].K == KInt && args[2].I.Int64() <= n {
				return UF("substr", SStr, a.Args[0], args[1], args[2])
			}
		}
	case "strat":
		a := args[0]
		if a.K == KStr && args[1].K == KInt {
			i := args[1].I.Int64()
			if i >= 0 && i < int64(len(a.Str)) {
				return Int(int64(a.Str[i]))
			}
		}
		if a.K == KApp && a.Op == "substr" {
			return UF("strat", SInt, a.Args[0], Add(a.Args[1], args[1]))
		}
		if a.K == KApp && a.Op == "seqstr" {
			return Select(a.Args[0], Add(a.Args[1], args[1]))
		}
		if a.K == KApp && a.Op == "hexenc" && args[1].K == KInt {
			// one hexadecimal digit of a byte
			i := args[1].I.Int64()
			v := UF("strat", SInt, a.Args[0], Int(i/2))
			d := Div(v, Int(16))
			if i%2 == 1 {
				d = Mod(v, Int(16))
			}
			return Ite(Le(d, Int(9)), Add(d, Int('0')), Add(d, Int('a'-10)))
		}
		if a.K == KApp && a.Op == "strcat" && a.Args[0].K == KStr && args[1].K == KInt {
			n := int64(len(a.Args[0].Str))
			if args[1].I.Int64() >= n {
				return UF("strat", SInt, a.Args[1], Sub(args[1], Int(n)))
			}
			return UF("strat", SInt, a.Args[0], args[1])
		}
	case "unjsonstr":
		if args[0].K == KApp && args[0].Op == "jsonstr" {
			return args[0].Args[0]
		}
	case "isjsonstr":
		if args[0].K == KApp && args[0].Op == "jsonstr" {
			return True
		}
	}
	return app(name, res, args...)
}

// ---------------------------------------------------------------- linear / polynomial arithmetic

type poly struct {
	c  *big.Int
	ms map[string]*mono
}
type mono struct {
	atoms []*Term // sorted by id
	c     *big.Int
}

func monoKey(as []*Term) string {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	return sb.String()
}

func (p *poly) add(as []*Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	if len(as) == 0 {
		p.c.Add(p.c, c)
		return
	}
	k := monoKey(as)
	if m, ok := p.ms[k]; ok {
		m.c.Add(m.c, c)
		if m.c.Sign() == 0 {
			delete(p.ms, k)
		}
		return
	}
	p.ms[k] = &mono{atoms: as, c: new(big.Int).Set(c)}
}

func newPoly() *poly { return &poly{c: new(big.Int), ms: map[string]*mono{}} }

// toPoly decomposes a canonical Int term.
func (p *poly) addTerm(t *Term, c *big.Int) {
	switch {
	case t.K == KInt:
		p.c.Add(p.c, new(big.Int).Mul(t.I, c))
	case t.K == KApp && t.Op == "+":
		for _, a := range t.Args {
			p.addTerm(a, c)
		}
	case t.K == KApp && t.Op == "*c": // const * monomial
		p.addTerm(t.Args[1], new(big.Int).Mul(c, t.Args[0].I))
	case t.K == KApp && t.Op == "bmul":
		p.add(monoAtoms(t), c)
	default:
		p.add([]*Term{t}, c)
	}
}

func monoAtoms(t *Term) []*Term {
	if t.K == KApp && t.Op == "bmul" {
		return append(append([]*Term{}, monoAtoms(t.Args[0])...), t.Args[1])
	}
	return []*Term{t}
}

func (p *poly) term() *Term {
	var keys []string
	for k := range p.ms {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := p.ms[keys[i]].atoms, p.ms[keys[j]].atoms
		for x := 0; x < len(a) && x < len(b); x++ {
			if a[x].id != b[x].id {
				return a[x].id < b[x].id
			}
		}
		return len(a) < len(b)
	})
	var parts []*Term
	one := big.NewInt(1)
	for _, k := range keys {
		m := p.ms[k]
		t := m.atoms[0]
		for _, a := range m.atoms[1:] {
			sigs["bmul"] = []Sort{SInt, SInt, SInt}
			t = app("bmul", SInt, t, a)
		}
		if m.c.Cmp(one) != 0 {
			t = app("*c", SInt, IntB(m.c), t)
		}
		parts = append(parts, t)
	}
	if p.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IntB(p.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return app("+", SInt, parts...)
}

var bigOne = big.NewInt(1)
var bigMinusOne = big.NewInt(-1)

func chkInt(ts ...*Term) {
	for _, t := range ts {
		if t.S != SInt {
			panic(fmt.Sprintf("expected Int term, got %s : %s", t, t.S))
		}
	}
}

func Add(ts ...*Term) *Term {
	chkInt(ts...)
	p := newPoly()
	for _, t := range ts {
		p.addTerm(t, bigOne)
	}
	return p.term()
}
func Sub(a, b *Term) *Term {
	chkInt(a, b)
	p := newPoly()
	p.addTerm(a, bigOne)
	p.addTerm(b, bigMinusOne)
	return p.term()
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func MulC(c int64, t *Term) *Term {
	p := newPoly()
	p.addTerm(t, big.NewInt(c))
	return p.term()
}
func Mul(a, b *Term) *Term {
	chkInt(a, b)
	pa, pb := newPoly(), newPoly()
	pa.addTerm(a, bigOne)
	pb.addTerm(b, bigOne)
	r := newPoly()
	am := []*mono{}
	for _, m := range pa.ms {
		am = append(am, m)
	}
	if pa.c.Sign() != 0 {
		am = append(am, &mono{c: pa.c})
	}
	bm := []*mono{}
	for _, m := range pb.ms {
		bm = append(bm, m)
	}
	if pb.c.Sign() != 0 {
		bm = append(bm, &mono{c: pb.c})
	}
	for _, x := range am {
		for _, y := range bm {
			as := append(append([]*Term{}, x.atoms...), y.atoms...)
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			r.add(as, new(big.Int).Mul(x.c, y.c))
		}
	}
	return r.term()
}

// constDiff returns (a-b) when it is a known constant.
func constDiff(a, b *Term) (*big.Int, bool) {
	if a == b {
		return big.NewInt(0), true
	}
	p := newPoly()
	p.addTerm(a, bigOne)
	p.addTerm(b, bigMinusOne)
	if len(p.ms) == 0 {
		return p.c, true
	}
	return nil, false
}

// Euclidean division and modulus
func Div(a, b *Term) *Term {
	if a.K == KInt && b.K == KInt && b.I.Sign() != 0 {
		return IntB(new(big.Int).Div(a.I, b.I))
	}
	if b.K == KInt && b.I.Cmp(bigOne) == 0 {
		return a
	}
	if b.K == KInt && b.I.Sign() != 0 {
		return app("div", SInt, a, b)
	}
	sigs["bdiv"] = []Sort{SInt, SInt, SInt}
	return app("bdiv", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if a.K == KInt && b.K == KInt && b.I.Sign() != 0 {
		return IntB(new(big.Int).Mod(a.I, b.I))
	}
	if b.K == KInt && b.I.Sign() != 0 {
		return app("mod", SInt, a, b)
	}
	sigs["bmod"] = []Sort{SInt, SInt, SInt}
	return app("bmod", SInt, a, b)
}

func Le(a, b *Term) *Term {
	chkInt(a, b)
	if d, ok := constDiff(a, b); ok {
		return BoolT(d.Sign() <= 0)
	}
	if b.K == KInt && a.K == KApp && a.Op == "ite" && iteConst(a, 5) {
		return Ite(a.Args[0], Le(a.Args[1], b), Le(a.Args[2], b))
	}
	if a.K == KInt && b.K == KApp && b.Op == "ite" && iteConst(b, 5) {
		return Ite(b.Args[0], Le(a, b.Args[1]), Le(a, b.Args[2]))
	}
	return app("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	chkInt(a, b)
	if d, ok := constDiff(a, b); ok {
		return BoolT(d.Sign() < 0)
	}
	return Not(Le(b, a))
}

// iteConst: nested ite with integer literal leaves
func iteConst(t *Term, d int) bool {
	if t.K == KInt {
		return true
	}
	return d > 0 && t.K == KApp && t.Op == "ite" && iteConst(t.Args[1], d-1) && iteConst(t.Args[2], d-1)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// ---------------------------------------------------------------- booleans

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.K == KApp && a.Op == "not":
		return a.Args[0]
	}
	return app("not", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || t.S != SBool {
			panic(fmt.Sprintf("And: not bool: %v", t))
		}
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.K == KApp && t.Op == "and" {
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return app("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == False {
			return true
		}
		if t == True {
			return false
		}
		if t.K == KApp && t.Op == "or" {
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return app("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	if b.K == KApp && b.Op == "=>" {
		return Implies(And(a, b.Args[0]), b.Args[1])
	}
	return app("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts differ: %s vs %s (%s, %s)", a.S, b.S, a, b))
	}
	if a.S == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.K == KApp && c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return app("ite", a.S, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts differ: %s : %s vs %s : %s", a, a.S, b, b.S))
	}
	switch a.S {
	case SInt:
		if d, ok := constDiff(a, b); ok {
			return BoolT(d.Sign() == 0)
		}
		if b.K == KInt && a.K == KApp && a.Op == "ite" && iteConst(a, 5) {
			return Or(And(a.Args[0], Eq(a.Args[1], b)), And(Not(a.Args[0]), Eq(a.Args[2], b)))
		}
		if a.K == KInt && b.K == KApp && b.Op == "ite" && iteConst(b, 5) {
			return Eq(b, a)
		}
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SStr:
		if a.K == KStr && b.K == KStr {
			return BoolT(a.Str == b.Str)
		}
		if b.K == KStr {
			a, b = b, a
		}
		if a.K == KStr { // literal vs term
			if b.K == KApp && b.Op == "substr" {
				cs := []*Term{Eq(Sub(b.Args[2], b.Args[1]), Int(int64(len(a.Str))))}
				for i := 0; i < len(a.Str); i++ {
					cs = append(cs, Eq(UF("strat", SInt, b.Args[0], Add(b.Args[1], Int(int64(i)))), Int(int64(a.Str[i]))))
				}
				return And(cs...)
			}
			if b.K == KApp && b.Op == "hexenc" { // hexadecimal text of bytes: compare the bytes
				raw, err := hex.DecodeString(a.Str)
				if err != nil || strings.ToLower(a.Str) != a.Str {
					return False
				}
				x := b.Args[0]
				cs := []*Term{Eq(UF("strlen", SInt, x), Int(int64(len(raw))))}
				for i := range raw {
					cs = append(cs, Eq(UF("strat", SInt, x, Int(int64(i))), Int(int64(raw[i]))))
				}
				return And(cs...)
			}
		}
		if b.K == KApp && b.Op == "strcat" && a.K == KApp && a.Op == "strcat" && a.Args[0] == b.Args[0] {
			return Eq(a.Args[1], b.Args[1])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------------------------------------------------------------- arrays

func knownDistinct(a, b *Term) bool {
	if a.S == SInt {
		if d, ok := constDiff(a, b); ok {
			return d.Sign() != 0
		}
	}
	if a.K == KStr && b.K == KStr {
		return a.Str != b.Str
	}
	if a.S == SInt {
		return newerRef(a, b) || newerRef(b, a)
	}
	return false
}

// Allocation counters: allocUp[n] lists the counters n is known not to be below; refUp[v] is a counter the
// reference v was known not to exceed when it was introduced (both facts are assumed in every path that mentions n or v).
var (
	allocUp = map[*Term][]*Term{}
	refUp   = map[*Term]*Term{}
)

// splitConst: t = base + c
func splitConst(t *Term) (*Term, int64) {
	if t.K == KApp && t.Op == "+" && len(t.Args) == 2 {
		for i := 0; i < 2; i++ {
			if c := t.Args[i]; c.K == KInt && c.I.IsInt64() {
				return t.Args[1-i], c.I.Int64()
			}
		}
	}
	return t, 0
}

// newerRef: a was allocated by a counter that had already passed b
func newerRef(a, b *Term) bool {
	ab, ac := splitConst(a)
	if _, ok := allocUp[ab]; !ok || ac < 1 {
		return false
	}
	bb, bc := splitConst(b)
	if u, ok := refUp[b]; ok {
		bb, bc = splitConst(u)
	}
	if bb == ab {
		return bc < ac
	}
	if _, ok := allocUp[bb]; !ok {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(n *Term) bool
	rec = func(n *Term) bool {
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, u := range allocUp[n] {
			ub, uc := splitConst(u)
			if ub == bb && bc <= uc || rec(ub) {
				return true
			}
		}
		return false
	}
	return rec(ab)
}

func Select(a, i *Term) *Term {
	if a.K == KApp {
		switch a.Op {
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if knownDistinct(a.Args[1], i) {
				return Select(a.Args[0], i)
			}
		case "const":
			return a.Args[0]
		case "strarr": // the bytes of a string
			return UF("strat", SInt, a.Args[0], i)
		case "ite":
			x, y := Select(a.Args[1], i), Select(a.Args[2], i)
			return Ite(a.Args[0], x, y)
		}
	}
	ix, e := arrParts(a.S)
	if ix != i.S {
		panic(fmt.Sprintf("select index sort %s, want %s: %s [%s]", i.S, ix, a, i))
	}
	return app("select", e, a, i)
}
func Store(a, i, v *Term) *Term {
	ix, e := arrParts(a.S)
	if ix != i.S || e != v.S {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.S, i.S, v.S))
	}
	if a.K == KApp && a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if Select(a, i) == v && !(a.K == KApp && a.Op == "ite") {
		return a
	}
	return app("store", a.S, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return app("const", s, v) }

// ---------------------------------------------------------------- quantifiers

func quant(k Kind, bnd []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	// drop unused
	var used []*Term
	for _, b := range bnd {
		for _, f := range body.free {
			if f == b {
				used = append(used, b)
				break
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	if k == KForall && body.K == KForall && len(pats) == 0 && len(body.Pats) == 0 {
		return quant(k, append(append([]*Term{}, used...), body.Bnd...), body.Args[0], nil)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "q%d", k)
	for _, b := range used {
		fmt.Fprintf(&sb, " %d", b.id)
	}
	fmt.Fprintf(&sb, ":%d", body.id)
	for _, p := range pats {
		sb.WriteString("|")
		for _, x := range p {
			fmt.Fprintf(&sb, " %d", x.id)
		}
	}
	return intern(sb.String(), func() *Term {
		return &Term{K: k, Bnd: used, Args: []*Term{body}, S: SBool, Pats: pats}
	})
}
func Forall(bnd []*Term, body *Term, pats ...[]*Term) *Term { return quant(KForall, bnd, body, pats) }
func Exists(bnd []*Term, body *Term, pats ...[]*Term) *Term { return quant(KExists, bnd, body, pats) }

// Subst replaces terms (usually vars / bound vars) by others, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}
func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substM(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		if t.K == KForall || t.K == KExists {
			var pats [][]*Term
			for _, p := range t.Pats {
				var np []*Term
				for _, x := range p {
					np = append(np, substM(x, m, memo))
				}
				pats = append(pats, np)
			}
			r = quant(t.K, t.Bnd, args[0], pats)
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "+":
		return Add(a...)
	case "*c":
		return Mul(a[0], a[1])
	case "bmul":
		return Mul(a[0], a[1])
	case "div", "bdiv":
		return Div(a[0], a[1])
	case "mod", "bmod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "const":
		return ConstArr(t.S, a[0])
	}
	return simpUF(t.Op, t.S, a)
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil, 0)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func symq(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '?' || c == '$' || c == '@') {
			return "|" + s + "|"
		}
	}
	return s
}

// names: already defined shared sub-terms
func writeTerm(sb *strings.Builder, t *Term, names map[int]string, depth int) {
	if names != nil {
		if n, ok := names[t.id]; ok {
			sb.WriteString(n)
			return
		}
	} else if depth > 60 {
		sb.WriteString("…")
		return
	}
	writeTermTop(sb, t, names, depth)
}

func strLitName(s string) string {
	return "|str:" + strings.NewReplacer("|", "¦", "\\", "/").Replace(fmt.Sprintf("%q", s)) + "|"
}

var nativeMul = false

func writeTermTop(sb *strings.Builder, t *Term, names map[int]string, depth int) {
	switch t.K {
	case KVar, KBound:
		sb.WriteString(symq(t.Op))
	case KInt:
		if t.I.Sign() < 0 {
			sb.WriteString("(- ")
			sb.WriteString(new(big.Int).Neg(t.I).String())
			sb.WriteString(")")
		} else {
			sb.WriteString(t.I.String())
		}
	case KBool:
		if t.B {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case KStr:
		sb.WriteString(strLitName(t.Str))
	case KApp:
		sb.WriteString("(")
		switch t.Op {
		case "const":
			sb.WriteString("(as const " + t.S + ")")
		case "*c":
			sb.WriteString("*")
		case "+", "div", "mod", "<=", "not", "and", "or", "=>", "ite", "=", "select", "store":
			sb.WriteString(t.Op)
		default:
			sb.WriteString(symq(t.Op))
		}
		for _, a := range t.Args {
			sb.WriteString(" ")
			writeTerm(sb, a, names, depth+1)
		}
		sb.WriteString(")")
	case KForall, KExists:
		if t.K == KForall {
			sb.WriteString("(forall (")
		} else {
			sb.WriteString("(exists (")
		}
		for _, b := range t.Bnd {
			sb.WriteString("(" + symq(b.Op) + " " + b.S + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.Args[0], names, depth+1)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteString(" ")
					}
					writeTerm(sb, x, names, depth+1)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	}
}
