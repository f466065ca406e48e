package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- axiom registry

type Axiom struct {
	T    *Term
	Name string
}

var symAxioms = map[string][]*Term{} // symbol -> axioms included when the symbol occurs

func addAxiom(sym string, t *Term) {
	if t == True {
		return
	}
	symAxioms[sym] = append(symAxioms[sym], t)
}

// axioms included when both symbols occur
type ax2 struct {
	other string
	t     *Term
}

var symAxioms2 = map[string][]ax2{}
var ax2Seen = map[string]bool{}

func addAxiom2(sym, other string, t *Term) {
	if t == True {
		return
	}
	k := fmt.Sprint(sym, "|", other, "|", t.id)
	if ax2Seen[k] {
		return
	}
	ax2Seen[k] = true
	symAxioms2[sym] = append(symAxioms2[sym], ax2{other, t})
}

func initStaticAxioms() {
	s := BoundVar("s", SStr)
	b := BoundVar("b", SStr)
	lower := func(t *Term) *Term { return app("strlower", SStr, t) }
	slen := func(t *Term) *Term { return app("strlen", SInt, t) }
	sigs["strlower"] = []Sort{SStr, SStr}
	sigs["strlen"] = []Sort{SStr, SInt}
	sigs["hexenc"] = []Sort{SStr, SStr}
	sigs["strcat"] = []Sort{SStr, SStr, SStr}
	sigs["substr"] = []Sort{SStr, SInt, SInt, SStr}
	sigs["strat"] = []Sort{SStr, SInt, SInt}
	sigs["jsonstr"] = []Sort{SStr, SStr}
	sigs["unjsonstr"] = []Sort{SStr, SStr}
	sigs["isjsonstr"] = []Sort{SStr, SBool}
	arr := ArrS(SInt, SInt)
	sigs["seqstr"] = []Sort{arr, SInt, SInt, SStr}
	q := func(bs []*Term, body *Term, pat *Term) *Term { return quant(KForall, bs, body, [][]*Term{{pat}}) }
	eq := func(a, b *Term) *Term { return app("=", SBool, a, b) }
	addAxiom("strlower", q([]*Term{s}, eq(slen(lower(s)), slen(s)), lower(s)))
	addAxiom("strlower", q([]*Term{s}, eq(lower(lower(s)), lower(s)), lower(s)))
	addAxiom("strlen", q([]*Term{s}, app("<=", SBool, Int(0), slen(s)), slen(s)))
	hx := app("hexenc", SStr, b)
	addAxiom("hexenc", q([]*Term{b}, And(eq(lower(hx), hx), eq(slen(hx), app("*c", SInt, Int(2), slen(b)))), hx))
	unhex := func(t *Term) *Term { return UF("unhexenc", SStr, t) }
	addAxiom("hexenc", q([]*Term{b}, eq(unhex(hx), b), hx))
	cat := app("strcat", SStr, s, b)
	addAxiom("strcat", q([]*Term{s, b}, eq(slen(cat), Add(slen(s), slen(b))), cat))
	addAxiom("strcat", q([]*Term{s, b}, eq(lower(cat), app("strcat", SStr, lower(s), lower(b))), lower(cat)))
	sigs["strdrop"] = []Sort{SStr, SStr, SStr} // what is left of a string after a prefix
	addAxiom("strcat", q([]*Term{s, b}, eq(app("strdrop", SStr, cat, s), b), cat))
	i := BoundVar("i", SInt)
	at := app("strat", SInt, s, i)
	addAxiom("strat", q([]*Term{s, i}, And(app("<=", SBool, Int(0), at), app("<=", SBool, at, Int(255))), at))
	j := BoundVar("j", SInt)
	sub := app("substr", SStr, s, i, j)
	addAxiom("substr", quant(KForall, []*Term{s, i, j}, Implies(And(Le(Int(0), i), Le(i, j), Le(j, slen(s))), eq(slen(sub), Sub(j, i))), [][]*Term{{sub}}))
	js := app("jsonstr", SStr, s)
	addAxiom("jsonstr", q([]*Term{s}, And(eq(app("unjsonstr", SStr, js), s), app("isjsonstr", SBool, js)), js))
	a := BoundVar("a", arr)
	sq := app("seqstr", SStr, a, i, j)
	addAxiom("seqstr", quant(KForall, []*Term{a, i, j}, Implies(Le(Int(0), j), eq(slen(sq), j)), [][]*Term{{sq}}))
	k2 := BoundVar("k", SInt)
	selAt := app("select", SInt, a, Add(i, k2))
	addAxiom("seqstr", quant(KForall, []*Term{a, i, j, k2}, Implies(And(Le(Int(0), k2), Lt(k2, j), Le(Int(0), selAt), Le(selAt, Int(255))), eq(app("strat", SInt, sq, k2), selAt)), [][]*Term{{app("strat", SInt, sq, k2)}}))
	sa := app("strarr", arr, s)
	sigs["strarr"] = []Sort{SStr, arr}
	addAxiom("strarr", quant(KForall, []*Term{s, i}, eq(app("select", SInt, sa, i), at), [][]*Term{{app("select", SInt, sa, i)}}))
	sigs["be32"] = []Sort{SInt, SStr}
	b32 := app("be32", SStr, i)
	addAxiom("be32", quant(KForall, []*Term{i}, eq(slen(b32), Int(32)), [][]*Term{{b32}}))
	// strict total order on strings
	c := BoundVar("c", SStr)
	lt := func(x, y *Term) *Term { return UF("strlt", SBool, x, y) }
	addAxiom("strlt", quant(KForall, []*Term{s, b}, And(Not(And(lt(s, b), lt(b, s))), Or(lt(s, b), lt(b, s), eq(s, b)), Not(And(lt(s, b), eq(s, b)))), [][]*Term{{lt(s, b)}}))
	addAxiom("strlt", quant(KForall, []*Term{s, b, c}, Implies(And(lt(s, b), lt(b, c)), lt(s, c)), [][]*Term{{lt(s, b), lt(b, c)}}))
	// division
	x, y := BoundVar("x", SInt), BoundVar("y", SInt)
	sigs["bdiv"] = []Sort{SInt, SInt, SInt}
	sigs["bmod"] = []Sort{SInt, SInt, SInt}
	sigs["bmul"] = []Sort{SInt, SInt, SInt}
	bd, bm := app("bdiv", SInt, x, y), app("bmod", SInt, x, y)
	addAxiom("bdiv", quant(KForall, []*Term{x, y}, Implies(And(Le(Int(0), x), Lt(Int(0), y)), And(Le(Int(0), bd), Le(bd, x))), [][]*Term{{bd}}))
	addAxiom("bdiv", quant(KForall, []*Term{x, y}, Implies(Ne(y, Int(0)), eq(x, Add(app("bmul", SInt, bd, y), bm))), [][]*Term{{bd}}))
	addAxiom("bmod", quant(KForall, []*Term{x, y}, Implies(Lt(Int(0), y), And(Le(Int(0), bm), Lt(bm, y))), [][]*Term{{bm}}))
	bmul := app("bmul", SInt, x, y)
	addAxiom("bmul", quant(KForall, []*Term{x, y}, And(Implies(And(Le(Int(0), x), Le(Int(0), y)), Le(Int(0), bmul)),
		Implies(Eq(x, Int(0)), Eq(bmul, Int(0))), Implies(Eq(y, Int(0)), Eq(bmul, Int(0))),
		Implies(Eq(x, Int(1)), Eq(bmul, y)), Implies(Eq(y, Int(1)), Eq(bmul, x))), [][]*Term{{bmul}}))
	addAxiom("bmul", quant(KForall, []*Term{x, y}, eq(bmul, app("bmul", SInt, y, x)), [][]*Term{{bmul}}))
}

// ---------------------------------------------------------------- query construction

type Query struct {
	Assume []*Term
	Goal   *Term // obligation: Assume |= Goal
}

type collector struct {
	seen     map[int]bool
	refs     map[int]int
	syms     map[string]*Term
	ufs      map[string]bool
	lits     map[string]*Term
	ord      []*Term
	sums     []*Term
	bmuls    []*Term
	wantMono bool
	divs     []*Term
}

func newCollector() *collector {
	return &collector{seen: map[int]bool{}, refs: map[int]int{}, syms: map[string]*Term{}, ufs: map[string]bool{}, lits: map[string]*Term{}}
}

var builtinOps = map[string]bool{"const": true, "*c": true, "+": true, "div": true, "mod": true, "<=": true, "not": true, "and": true, "or": true, "=>": true, "ite": true, "=": true, "select": true, "store": true}

func (c *collector) visit(t *Term) {
	c.refs[t.id]++
	if c.seen[t.id] {
		return
	}
	c.seen[t.id] = true
	switch t.K {
	case KVar:
		c.syms[t.Op] = t
	case KStr:
		c.lits[t.Str] = t
	case KApp:
		if !builtinOps[t.Op] {
			c.ufs[t.Op] = true
			if len(t.free) == 0 {
				switch t.Op {
				case "Sum":
					c.sums = append(c.sums, t)
				case "bmul":
					c.bmuls = append(c.bmuls, t)
				case "bdiv", "bmod":
					c.divs = append(c.divs, t)
				}
			}
		}
	}
	for _, a := range t.Args {
		c.visit(a)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			c.visit(x)
		}
	}
	if len(t.Args) > 0 {
		c.ord = append(c.ord, t)
	}
}

func (c *collector) visitOnce(t *Term) {
	if !c.seen[t.id] {
		c.visit(t)
	}
}

// close adds axioms for occurring symbols until a fixpoint.
func (c *collector) closeAxioms() []*Term {
	var out []*Term
	done := map[string]bool{}
	done2 := map[int]bool{}
	for {
		progress := false
		for n := range c.syms {
			for _, a := range symAxioms2[n] {
				if !done2[a.t.id] && c.syms[a.other] != nil {
					done2[a.t.id] = true
					progress = true
					out = append(out, a.t)
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		if progress {
			for _, a := range out {
				if done2[a.id] {
					c.visitOnce(a)
				}
			}
		}
		var names []string
		for n := range c.syms {
			if !done["v"+n] {
				names = append(names, "v"+n)
			}
		}
		for n := range c.ufs {
			if !done["f"+n] {
				names = append(names, "f"+n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			done[n] = true
			progress = true
			for _, ax := range symAxioms[n[1:]] {
				out = append(out, ax)
				c.visit(ax)
			}
		}
		if !progress {
			return out
		}
	}
}

// sums: 0 every sum axiom, 1 none, 2 the lean set
func buildSMT(q *Query, sumInst []*Term, native bool, sums int) string {
	wantModel := false
	c := newCollector()
	for _, a := range q.Assume {
		c.visit(a)
	}
	ng := Not(q.Goal)
	c.visit(ng)
	c.wantMono = mentionsOp(q.Goal, "<=")
	for _, a := range sumInst {
		c.visit(a)
	}
	axioms := c.closeAxioms()
	// sum axioms may mention new symbols only through terms already visited
	var extra []*Term
	if sums != 1 {
		extra = sumAxioms(c, sums == 2)
	}
	extra = append(extra, mulAxioms(c)...)
	for _, a := range extra {
		c.visit(a)
	}
	axioms = append(axioms, extra...)
	more := c.closeAxioms()
	_ = more
	// closeAxioms recomputes everything already done as 'done' is local: dedupe
	seenA := map[int]bool{}
	var axs []*Term
	for _, a := range append(axioms, more...) {
		if !seenA[a.id] {
			seenA[a.id] = true
			axs = append(axs, a)
		}
	}

	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString("(declare-sort Str 0)\n")
	var names []string
	for n := range c.syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", symq(n), c.syms[n].S)
	}
	names = names[:0]
	for n := range c.ufs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if native && (n == "bmul" || n == "bdiv" || n == "bmod") {
			continue
		}
		sg := sigs[n]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symq(n), strings.Join(sg[:len(sg)-1], " "), sg[len(sg)-1])
	}
	names = names[:0]
	for n := range c.lits {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "(declare-fun %s () Str)\n", strLitName(n))
	}
	if len(names) > 1 {
		sb.WriteString("(assert (distinct")
		for _, n := range names {
			sb.WriteString(" " + strLitName(n))
		}
		sb.WriteString("))\n")
	}
	for _, n := range names {
		if c.ufs["strlen"] {
			fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", strLitName(n), len(n))
		}
		if c.ufs["strlower"] {
			l := strings.ToLower(n)
			if _, ok := c.lits[l]; ok {
				fmt.Fprintf(&sb, "(assert (= (strlower %s) %s))\n", strLitName(n), strLitName(l))
			}
		}
		if c.ufs["strat"] && len(n) <= 64 {
			for i := 0; i < len(n); i++ {
				fmt.Fprintf(&sb, "(assert (= (strat %s %d) %d))\n", strLitName(n), i, n[i])
			}
		}
	}
	// shared definitions
	pr := &printer{names: map[int]string{}, native: native}
	sort.Slice(c.ord, func(i, j int) bool { return c.ord[i].id < c.ord[j].id })
	for _, t := range c.ord {
		ite := t.K == KApp && t.Op == "ite" && t.S != "Bool"
		if (c.refs[t.id] >= 2 || ite) && len(t.free) == 0 && (t.K == KApp || t.K == KForall || t.K == KExists) {
			pr.sb.Reset()
			pr.top(t)
			if ite {
				// an if-then-else may not occur in a trigger, even through a macro: give it a name
				fmt.Fprintf(&sb, "(declare-fun n!%d () %s)\n(assert (= n!%d %s))\n", t.id, t.S, t.id, pr.sb.String())
				pr.names[t.id] = fmt.Sprintf("n!%d", t.id)
				continue
			}
			fmt.Fprintf(&sb, "(define-fun n!%d () %s %s)\n", t.id, t.S, pr.sb.String())
			pr.names[t.id] = fmt.Sprintf("n!%d", t.id)
		}
	}
	for _, a := range axs {
		if native {
			if a.K == KForall && mentionsBig(a.Pats) {
				continue
			}
		}
		pr.sb.Reset()
		pr.w(a)
		sb.WriteString("(assert " + pr.sb.String() + ")\n")
	}
	for _, a := range q.Assume {
		pr.sb.Reset()
		pr.w(a)
		sb.WriteString("(assert " + pr.sb.String() + ")\n")
	}
	sb.WriteString("; negated goal\n")
	pr.sb.Reset()
	pr.w(ng)
	sb.WriteString("(assert " + pr.sb.String() + ")\n(check-sat)\n")
	if wantModel {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

func mentionsBig(ps [][]*Term) bool {
	for _, p := range ps {
		for _, x := range p {
			if x.K == KApp && (x.Op == "bmul" || x.Op == "bdiv" || x.Op == "bmod") {
				return true
			}
		}
	}
	return false
}

type printer struct {
	sb     strings.Builder
	names  map[int]string
	native bool
}

// badPattern: a bound variable sits under a logical connective or an if-then-else
func badPattern(t *Term) bool {
	if t.K != KApp {
		return t.K == KForall || t.K == KExists
	}
	if len(t.free) == 0 {
		return t.S == "Bool" && t.Op != "select" && builtinOps[t.Op]
	}
	switch t.Op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "<", ">", ">=", "distinct":
		return true
	}
	for _, a := range t.Args {
		if badPattern(a) {
			return true
		}
	}
	return false
}

func (p *printer) w(t *Term) {
	if n, ok := p.names[t.id]; ok {
		p.sb.WriteString(n)
		return
	}
	p.top(t)
}
func (p *printer) top(t *Term) {
	switch t.K {
	case KApp:
		p.sb.WriteString("(")
		switch {
		case t.Op == "const":
			p.sb.WriteString("(as const " + t.S + ")")
		case t.Op == "*c" || p.native && t.Op == "bmul":
			p.sb.WriteString("*")
		case p.native && t.Op == "bdiv":
			p.sb.WriteString("div")
		case p.native && t.Op == "bmod":
			p.sb.WriteString("mod")
		case builtinOps[t.Op]:
			p.sb.WriteString(t.Op)
		default:
			p.sb.WriteString(symq(t.Op))
		}
		for _, a := range t.Args {
			p.sb.WriteString(" ")
			p.w(a)
		}
		p.sb.WriteString(")")
	case KForall, KExists:
		if t.K == KForall {
			p.sb.WriteString("(forall (")
		} else {
			p.sb.WriteString("(exists (")
		}
		for _, b := range t.Bnd {
			p.sb.WriteString("(" + symq(b.Op) + " " + b.S + ")")
		}
		p.sb.WriteString(") ")
		var pats [][]*Term
		for _, pt := range t.Pats {
			ok := true
			for _, x := range pt {
				if badPattern(x) {
					ok = false
				}
			}
			if ok {
				pats = append(pats, pt)
			}
		}
		if len(pats) > 0 {
			p.sb.WriteString("(! ")
		}
		p.w(t.Args[0])
		for _, pt := range pats {
			p.sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					p.sb.WriteString(" ")
				}
				p.w(x)
			}
			p.sb.WriteString(")")
		}
		if len(pats) > 0 {
			p.sb.WriteString(")")
		}
		p.sb.WriteString(")")
	default:
		writeTermTop(&p.sb, t, map[int]string{}, 0)
	}
}

// ---------------------------------------------------------------- solvers

type SolveResult struct {
	Status string // unsat sat unknown
	Solver string
	Time   time.Duration
	Output string
	Stage  int
}

var solverSem = make(chan struct{}, 8)
var (
	statQueries int64
	statTimeNS  int64
)
var statBySolver sync.Map

// takeToken: the worker processes of one check share a pool of solver slots (a pipe holding one byte per slot)
var tokenR, tokenW *os.File

func takeToken() func() {
	tokenOnce.Do(func() {
		if os.Getenv("GOVC_TOKENS") != "" {
			tokenR, tokenW = os.NewFile(3, "tokens-r"), os.NewFile(4, "tokens-w")
		}
	})
	if tokenR == nil {
		return func() {}
	}
	var b [1]byte
	if n, err := tokenR.Read(b[:]); n != 1 || err != nil {
		return func() {}
	}
	return func() { tokenW.Write(b[:]) }
}

var tokenOnce sync.Once

func runSolver(ctx context.Context, name string, args []string, text string) (string, string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	defer takeToken()()
	if ctx.Err() != nil {
		return "unknown", "cancelled", 0
	}
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statTimeNS, int64(d))
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		switch l = strings.TrimSpace(l); {
		case l == "unsat" || l == "sat":
			return l, o, d
		case strings.HasPrefix(l, "(error"):
			return "unknown", o, d
		}
	}
	if strings.Contains(o, "error") && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", name, o)
	}
	return "unknown", o, d
}

type solverCfg struct {
	label  string
	bin    string
	args   []string
	native bool
}

func z3cfg(label, bin string, to int, native bool, extra ...string) solverCfg {
	return solverCfg{label, bin, append([]string{"-in", "-smt2", fmt.Sprintf("-T:%d", to)}, extra...), native}
}

var queryCache sync.Map

type solveJob struct {
	q           *Query
	text, text0 string
	ntext, bare string
	key         string
	effort      int
	res         SolveResult
	done        bool
}

// prepare builds the query text (single-threaded); run decides it.
func prepare(q *Query, effort int) *solveJob {
	j := &solveJob{q: q, effort: effort}
	if q.Goal == True {
		j.res = SolveResult{Status: "unsat", Solver: "simplifier"}
		j.done = true
		return j
	}
	for _, a := range q.Assume {
		if a == False || a == q.Goal {
			j.res = SolveResult{Status: "unsat", Solver: "simplifier"}
			j.done = true
			return j
		}
	}
	t0 := time.Now()
	j.text = buildSMT(q, nil, false, 0)
	h := sha256.Sum256([]byte(j.text))
	j.key = hex.EncodeToString(h[:]) + fmt.Sprint(effort)
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, hex.EncodeToString(h[:8])+".smt2"), []byte("; goal: "+q.Goal.String()+"\n"+j.text), 0644)
	}
	if r, ok := queryCache.Load(j.key); ok {
		j.res = r.(SolveResult)
		j.done = true
		return j
	}
	if !mentionsPrefix(q.Goal, "Sum") {
		j.text0 = buildSMT(q, nil, false, 1)
	} else {
		j.text0 = buildSMT(q, nil, false, 2)
		if effort > 0 {
			j.bare = buildSMT(q, nil, false, 1)
		}
	}
	if j.text0 == j.text {
		j.text0 = ""
	}
	if effort > 0 && usesNL {
		j.ntext = buildSMT(q, nil, true, 0)
	}
	statPrep += int64(time.Since(t0))
	return j
}

// mulAxioms: ground monotonicity instances for the products of a query
//
//	0 <= a, b <= c  =>  a*b <= a*c   (c a constant bound, or the other factor of a product with a)
func mulAxioms(c *collector) []*Term {
	var out []*Term
	ms := c.bmuls
	if len(ms) > 12 {
		ms = ms[:12]
	}
	bound := Int(10000)
	for _, t := range ms {
		for i := 0; i < 2; i++ {
			a, b := t.Args[i], t.Args[1-i]
			out = append(out, Implies(And(Le(Int(0), a), Le(b, bound)), Le(t, MulC(10000, a))))
			for _, u := range ms {
				if u == t {
					continue
				}
				for j := 0; j < 2; j++ {
					if u.Args[j] == a {
						out = append(out, Implies(And(Le(Int(0), a), Le(b, u.Args[1-j])), Le(t, u)))
					}
				}
			}
		}
	}
	return out
}

// timedOut: the fast stage ran out of time (it did not merely saturate)
func (j *solveJob) timedOut() bool {
	return j.res.Status == "unknown" && strings.Contains(j.res.Output, "timeout")
}

var usesNL bool
var statPrep int64

func mentionsPrefix(t *Term, pre string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.K == KApp && strings.HasPrefix(t.Op, pre) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (j *solveJob) run() {
	if j.done {
		return
	}
	if j.bare != "" {
		t0 := time.Now()
		c1 := z3cfg("z3-4.8-bare", "z3", 3, false, "auto_config=false", "smt.mbqi=false")
		if st, _, _ := runSolver(context.Background(), c1.bin, c1.args, j.bare); st == "unsat" {
			j.res = SolveResult{Status: st, Solver: c1.label, Time: time.Since(t0), Stage: 1}
			j.done = true
			queryCache.Store(j.key, j.res)
			return
		}
	}
	if j.text0 != "" {
		t0 := time.Now()
		to := 2
		if j.effort > 0 {
			to = 4
		}
		c1 := z3cfg("z3-5.3", "z3-new", to, false, "auto_config=false", "smt.mbqi=false", "smt.arith.solver=2")
		if st, _, _ := runSolver(context.Background(), c1.bin, c1.args, j.text0); st == "unsat" {
			j.res = SolveResult{Status: st, Solver: c1.label, Time: time.Since(t0), Stage: 1}
			j.done = true
			queryCache.Store(j.key, j.res)
			return
		}
	}
	j.res = solveText(j.text, j.ntext, j.text0, j.effort)
	j.done = true
	queryCache.Store(j.key, j.res)
}

func runJobs(js []*solveJob) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, j := range js {
		if j.done {
			continue
		}
		wg.Add(1)
		j := j
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			j.run()
		}()
	}
	wg.Wait()
}

func solve(q *Query, effort int) SolveResult {
	j := prepare(q, effort)
	j.run()
	return j.res
}

func solveText(text, ntext, lean string, effort int) SolveResult {
	t0 := time.Now()
	// stage 1: fast E-matching
	to := 2
	if effort >= 1 {
		to = 4
	}
	c1 := z3cfg("z3-5.3", "z3-new", to, false, "auto_config=false", "smt.mbqi=false")
	st, out, _ := runSolver(context.Background(), c1.bin, c1.args, text)
	last := out
	if st == "unsat" {
		return SolveResult{Status: st, Solver: c1.label, Time: time.Since(t0), Stage: 1}
	}
	if effort == 0 {
		return SolveResult{Status: st, Solver: c1.label, Time: time.Since(t0), Output: last}
	}
	long := 10
	if effort >= 2 {
		long = 30
	}
	if effort >= 3 {
		long = 90
	}
	type rr struct {
		st, out, label string
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cfgs := []solverCfg{
		{"cvc5-1.1", "cvc5", []string{"--lang", "smt2", fmt.Sprintf("--tlimit=%d", long*1000), "-"}, false},
		z3cfg("z3-5.3-auto", "z3-new", long, false),
		z3cfg("z3-4.8", "z3", long, false, "smt.mbqi=false", "auto_config=false"),
	}
	if ntext != "" && ntext != text {
		cfgs = append(cfgs, z3cfg("z3-5.3-nia", "z3-new", long, true, "auto_config=false", "smt.mbqi=false"))
		cfgs = append(cfgs, z3cfg("z3-5.3-nia2", "z3-new", long, true))
	}
	if lean != "" {
		cfgs = append(cfgs, z3cfg("z3-5.3-a2-lean", "z3-new", long, false, "smt.arith.solver=2"))
		cfgs = append(cfgs, z3cfg("z3-5.3-lean", "z3-new", long, false, "auto_config=false", "smt.mbqi=false"))
		cfgs = append(cfgs, z3cfg("z3-4.8-lean", "z3", long, false, "auto_config=false", "smt.mbqi=false"))
	}
	ch := make(chan rr, len(cfgs))
	for _, c := range cfgs {
		c := c
		go func() {
			tx := text
			if c.native {
				tx = ntext
			}
			if strings.HasSuffix(c.label, "-lean") {
				tx = lean
			}
			s, o, _ := runSolver(ctx, c.bin, c.args, tx)
			ch <- rr{s, o, c.label}
		}()
	}
	res := "unknown"
	solver := ""
	for range cfgs {
		r := <-ch
		if r.st == "unsat" {
			return SolveResult{Status: "unsat", Solver: r.label, Time: time.Since(t0), Stage: 2}
		}
		if r.st == "sat" && strings.HasPrefix(r.label, "z3-5.3-auto") || r.st == "sat" && r.label == "cvc5-1.1" {
			// a model of the whole query: the obligation is refuted
			return SolveResult{Status: "sat", Solver: r.label, Time: time.Since(t0), Output: r.out}
		}
		if solver == "" {
			solver = r.label
		}
	}
	return SolveResult{Status: res, Solver: solver, Time: time.Since(t0), Output: last}
}
