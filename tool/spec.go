package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- contract language: syntax

type Expr struct {
	Op   string // int str id . [] call un bin forall exists sum if let
	Name string
	Args []*Expr
	I    *big.Int
	B    []bvar
	Trig []*Expr // explicit trigger of a quantifier
}
type bvar struct {
	name string
	kind string // "in" (map/set), "range", "type"
	typ  string
	dom  *Expr
	lo   *Expr
	hi   *Expr
}

type Clause struct {
	Kind                string // requires ensures modifies inv step
	Tags                []string
	Label               string
	E                   *Expr
	Mods                []*ModTarget
	Src                 string
	Type                string   // forlocal type
	Var                 string   // forlocal variable
	MoreVars, MoreTypes []string // further forlocal variables
	Watch               []string // step: watched heap keys
	Over                *Expr
	Line                int
	File                string
}

type ModTarget struct {
	B   []bvar // family quantifiers
	Big bool
	All string // whole heap component
	E   *Expr  // location
	Any bool
}

type FuncSpec struct {
	Name    string // originName key
	Params  []string
	Results []string
	Clauses []*Clause
	Pure    bool
	Inline  bool
	Helper  bool // optional: callers are verified with the body inlined when the contract fails
	Trusted bool // assumed, never verified (external or function-typed values)
	NoAbort bool
	Locks   bool
	Props   []string // properties this function is a root of
	NoFrame bool
	ForceIn []string
	File    string
	Line    int
	Effort  int
	// properties under which the preconditions of callees are assumed
	Unchecked []string
	// properties whose check leaves this function to the checks of other properties
	Elsewhere []string
	Pairs     bool // sums may change at two keys at once
	ParamTyp  map[string]string
}

type MacroDef struct {
	Name   string
	Params []string
	Body   *Expr
}
type UFDef struct {
	Name string
	Args []string
	Res  string
}

type SpecDB struct {
	Funcs  map[string]*FuncSpec
	Macros map[string]*MacroDef
	UFs    map[string]*UFDef
	Axioms []*Clause
	Order  []string
}

type tok struct {
	k    string // id int str op eof
	s    string
	line int
}

func lexSpec(src, file string) []tok {
	var out []tok
	line := 1
	rs := []rune(src)
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", ".."}
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '#':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j]), line})
			i = j
		case unicode.IsDigit(c):
			j := i + 1
			for j < len(rs) && unicode.IsDigit(rs[j]) {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j]), line})
			i = j
		case c == '"':
			j := i + 1
			for rs[j] != '"' {
				j++
			}
			out = append(out, tok{"str", string(rs[i+1 : j]), line})
			i = j + 1
		default:
			done := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				out = append(out, tok{"op", string(c), line})
				i++
			}
		}
	}
	return append(out, tok{"eof", "", line})
}

type sparser struct {
	t    []tok
	p    int
	file string
	db   *SpecDB
}

func (p *sparser) peek() tok { return p.t[p.p] }
func (p *sparser) at(s string) bool {
	return p.t[p.p].s == s && p.t[p.p].k != "str"
}
func (p *sparser) atN(n int, s string) bool {
	return p.p+n < len(p.t) && p.t[p.p+n].s == s && p.t[p.p+n].k != "str"
}
func (p *sparser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *sparser) accept(s string) bool {
	if p.at(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, fmt.Sprintf(f, a...), p.peek().s))
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	if p.peek().k != "id" {
		p.fail("expected identifier")
	}
	return p.next().s
}

func (p *sparser) expr() *Expr        { return p.iff() }
func bin(op string, a, b *Expr) *Expr { return &Expr{Op: "bin", Name: op, Args: []*Expr{a, b}} }
func (p *sparser) iff() *Expr {
	e := p.imp()
	for p.accept("<==>") {
		e = bin("<==>", e, p.imp())
	}
	return e
}
func (p *sparser) imp() *Expr {
	e := p.or()
	if p.accept("==>") {
		return bin("==>", e, p.imp())
	}
	return e
}
func (p *sparser) or() *Expr {
	e := p.and()
	for p.accept("||") {
		e = bin("||", e, p.and())
	}
	return e
}
func (p *sparser) and() *Expr {
	e := p.cmp()
	for p.accept("&&") {
		e = bin("&&", e, p.cmp())
	}
	return e
}
func (p *sparser) cmp() *Expr {
	e := p.sum()
	for {
		switch {
		case p.at("==") || p.at("!=") || p.at("<=") || p.at(">=") || p.at("<") || p.at(">"):
			o := p.next().s
			e = bin(o, e, p.sum())
		case p.at("in"):
			p.next()
			e = bin("in", e, p.sum())
		default:
			return e
		}
	}
}
func (p *sparser) sum() *Expr {
	e := p.mul()
	for p.at("+") || p.at("-") {
		o := p.next().s
		e = bin(o, e, p.mul())
	}
	return e
}
func (p *sparser) mul() *Expr {
	e := p.unary()
	for p.at("*") || p.at("/") || p.at("%") {
		o := p.next().s
		e = bin(o, e, p.unary())
	}
	return e
}
func (p *sparser) unary() *Expr {
	if p.at("!") || p.at("-") {
		o := p.next().s
		return &Expr{Op: "un", Name: o, Args: []*Expr{p.unary()}}
	}
	return p.postfix()
}
func (p *sparser) binders() []bvar {
	var bs []bvar
	for {
		b := bvar{name: p.ident()}
		if p.accept("in") {
			e := p.sum()
			if p.accept("..") {
				b.kind, b.lo, b.hi = "range", e, p.sum()
			} else {
				b.kind, b.dom = "in", e
			}
		} else {
			b.kind = "type"
			b.typ = p.ident()
		}
		bs = append(bs, b)
		if !p.accept(",") {
			return bs
		}
	}
}
func (p *sparser) primary() *Expr {
	t := p.peek()
	switch {
	case t.k == "int":
		p.next()
		i, _ := new(big.Int).SetString(t.s, 10)
		return &Expr{Op: "int", I: i}
	case t.k == "str":
		p.next()
		return &Expr{Op: "str", Name: t.s}
	case p.at("("):
		p.next()
		e := p.expr()
		p.expect(")")
		return e
	case p.at("forall") || p.at("exists") || p.at("sum"):
		p.next()
		bs := p.binders()
		p.expect("::")
		q := &Expr{Op: t.s, B: bs}
		if p.accept("trigger") {
			p.expect("(")
			for !p.accept(")") {
				q.Trig = append(q.Trig, p.expr())
				p.accept(",")
			}
		}
		q.Args = []*Expr{p.expr()}
		return q
	case p.at("if"):
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		return &Expr{Op: "if", Args: []*Expr{c, a, p.expr()}}
	case p.at("let"):
		p.next()
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("::")
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, p.expr()}}
	case t.k == "id":
		p.next()
		if p.accept("(") {
			e := &Expr{Op: "call", Name: t.s}
			for !p.at(")") {
				e.Args = append(e.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return e
		}
		return &Expr{Op: "id", Name: t.s}
	}
	p.fail("expected expression")
	return nil
}
func (p *sparser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: ".", Name: p.ident(), Args: []*Expr{e}}
		case p.accept("["):
			if p.accept("*") {
				p.expect("]")
				e = &Expr{Op: "[*]", Args: []*Expr{e}}
				continue
			}
			i := p.expr()
			p.expect("]")
			e = &Expr{Op: "[]", Args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

// funcName parses names such as  (*oracle.Oracle).handleDonations, utils.Equals, dyn:oracle.X
func (p *sparser) funcName() string {
	s := ""
	if p.accept("(") {
		s = "("
		if p.accept("*") {
			s += "*"
		}
		s += p.path()
		p.expect(")")
		s += ")"
		p.expect(".")
		return s + "." + p.ident()
	}
	if p.at("dyn") {
		p.next()
		p.expect(":")
		return "dyn:" + p.path()
	}
	return p.path()
}
func (p *sparser) path() string {
	s := p.ident()
	for p.at(".") || p.at("/") || p.at("-") {
		s += p.next().s
		s += p.next().s
	}
	return s
}

func (p *sparser) tagsLabel(c *Clause) {
	if p.accept("[") {
		for !p.accept("]") {
			c.Tags = append(c.Tags, p.next().s)
			p.accept(",")
		}
	}
	if p.peek().k == "id" && p.atN(1, ":") && !p.atN(1, "::") {
		c.Label = p.next().s
		p.next()
	}
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "inv": true, "step": true, "pure": true,
	"inline": true, "trusted": true, "noabort": true, "locks": true, "func": true, "def": true, "fun": true, "axiom": true, "noframe": true, "forlocal": true, "helper": true, "effort": true, "pairs": true, "elsewhere": true, "unchecked": true, "roots": true}

func (p *sparser) srcSince(start int) string {
	var sb strings.Builder
	for i := start; i < p.p; i++ {
		t := p.t[i]
		if t.k == "str" {
			sb.WriteString("\"" + t.s + "\"")
		} else {
			if i > start && t.k != "op" && p.t[i-1].k != "op" {
				sb.WriteString(" ")
			}
			sb.WriteString(t.s)
		}
	}
	return sb.String()
}

func (p *sparser) parse() {
	for p.peek().k != "eof" {
		switch {
		case p.accept("def"):
			m := &MacroDef{Name: p.ident()}
			p.expect("(")
			for !p.accept(")") {
				m.Params = append(m.Params, p.ident())
				p.accept(",")
			}
			p.expect("=")
			m.Body = p.expr()
			p.db.Macros[m.Name] = m
		case p.accept("fun"):
			u := &UFDef{Name: p.ident()}
			p.expect("(")
			for !p.accept(")") {
				u.Args = append(u.Args, p.ident())
				p.accept(",")
			}
			u.Res = p.ident()
			p.db.UFs[u.Name] = u
		case p.accept("axiom"):
			c := &Clause{Kind: "axiom"}
			p.tagsLabel(c)
			c.E = p.expr()
			p.db.Axioms = append(p.db.Axioms, c)
		case p.accept("func"):
			f := &FuncSpec{File: p.file, Line: p.peek().line}
			f.Name = p.funcName()
			p.expect("(")
			for !p.accept(")") {
				f.Params = append(f.Params, p.ident())
				p.accept(",")
			}
			if p.accept("(") {
				for !p.accept(")") {
					f.Results = append(f.Results, p.ident())
					p.accept(",")
				}
			}
			p.clauses(f)
			p.db.Funcs[f.Name] = f
			p.db.Order = append(p.db.Order, f.Name)
		default:
			p.fail("expected declaration")
		}
	}
}

func (p *sparser) clauses(f *FuncSpec) {
	for {
		c := &Clause{Line: p.peek().line, File: p.file}
		start := p.p
		switch {
		case p.accept("pure"):
			f.Pure = true
			continue
		case p.accept("inline"):
			f.Inline = true
			continue
		case p.accept("helper"):
			f.Helper = true
			continue
		case p.accept("trusted"):
			f.Trusted = true
			continue
		case p.accept("noabort"):
			f.NoAbort = true
			continue
		case p.accept("locks"):
			f.Locks = true
			continue
		case p.accept("noframe"):
			f.NoFrame = true
			continue
		case p.accept("elsewhere"):
			p.expect("[")
			for !p.accept("]") {
				f.Elsewhere = append(f.Elsewhere, p.next().s)
				p.accept(",")
			}
			continue
		case p.accept("unchecked"):
			p.expect("[")
			for !p.accept("]") {
				f.Unchecked = append(f.Unchecked, p.next().s)
				p.accept(",")
			}
			continue
		case p.accept("pairs"):
			f.Pairs = true
			continue
		case p.accept("effort"):
			fmt.Sscan(p.next().s, &f.Effort)
			continue
		case p.accept("roots"):
			p.expect("[")
			for !p.accept("]") {
				f.Props = append(f.Props, p.next().s)
				p.accept(",")
			}
			continue
		case p.accept("requires"):
			c.Kind = "requires"
		case p.accept("ensures"):
			c.Kind = "ensures"
		case p.accept("inv"):
			c.Kind = "inv"
		case p.accept("forlocal"):
			c.Kind = "inv"
			p.tagsLabel(c)
			c.Var = p.ident()
			c.Type = p.next().s
			for p.accept(",") {
				c.MoreVars = append(c.MoreVars, p.ident())
				c.MoreTypes = append(c.MoreTypes, p.next().s)
			}
			if p.accept("over") {
				c.Over = p.postfix()
			}
			p.expect("::")
			c.E = p.expr()
			c.Src = p.srcSince(start)
			f.Clauses = append(f.Clauses, c)
			continue
		case p.accept("modifies"):
			c.Kind = "modifies"
			p.tagsLabel(c)
			for {
				m := &ModTarget{}
				if p.accept("for") {
					m.B = p.binders()
					p.expect("::")
				}
				if p.accept("anything") {
					m.Any = true
				} else if p.accept("all") {
					m.All = p.next().s
					for p.at(".") || p.at("#") || p.at(":") || p.at(">") || p.at("*") || p.at("[") || p.at("]") {
						m.All += p.next().s
						if p.peek().k == "id" && !clauseKw[p.peek().s] {
							m.All += p.next().s
						}
					}
				} else if p.at("big") && p.atN(1, "(") {
					p.next()
					p.next()
					m.Big = true
					m.E = p.expr()
					p.expect(")")
				} else {
					m.E = p.postfix()
				}
				c.Mods = append(c.Mods, m)
				if !p.accept(",") {
					break
				}
			}
			c.Src = p.srcSince(start)
			f.Clauses = append(f.Clauses, c)
			continue
		case p.accept("step"):
			c.Kind = "step"
			p.tagsLabel(c)
			p.expect("over")
			c.Over = p.postfix()
			p.expect("::")
			c.E = p.expr()
			c.Src = p.srcSince(start)
			f.Clauses = append(f.Clauses, c)
			continue
		default:
			return
		}
		p.tagsLabel(c)
		if c.Kind == "inv" && p.accept("over") {
			c.Over = p.postfix()
			p.expect("::")
		}
		c.E = p.expr()
		c.Src = p.srcSince(start)
		if c.Label == "" {
			c.Label = fmt.Sprintf("%s@%d", c.Kind, c.Line)
		}
		f.Clauses = append(f.Clauses, c)
	}
}

func loadSpecs(dir string) *SpecDB {
	db := &SpecDB{Funcs: map[string]*FuncSpec{}, Macros: map[string]*MacroDef{}, UFs: map[string]*UFDef{}}
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	var names []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".gospec") {
			names = append(names, e.Name())
		}
	}
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(dir + "/" + n)
		if err != nil {
			panic(err)
		}
		p := &sparser{t: lexSpec(string(b), n), file: n, db: db}
		p.parse()
	}
	return db
}

func (c *Clause) forProp(prop string) bool {
	if len(c.Tags) == 0 || prop == "" {
		return true
	}
	for _, t := range c.Tags {
		if t == prop {
			return true
		}
	}
	return false
}
