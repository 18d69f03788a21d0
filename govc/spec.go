package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// ---- contract language: lexer, parser, AST --------------------------------

type tok struct {
	k    string // id int str chr op eof
	s    string
	line int
	bol  bool
}

type Expr struct {
	k    string // id int str bin un call index slice field forall exists
	s    string
	i    int64
	a    []*Expr
	bv   []Param
	tr   [][]*Expr
	line int
	lo   bool // slice bounds present
	hi   bool
}

type Param struct {
	name string
	sort Sort
}

type Clause struct {
	apply bool // an application at the return
	label string
	e     *Expr
	line  int
	text  string
}

type Behavior struct {
	name    string
	assumes []Clause
	ensures []Clause
	invs    []Clause
	uses    []string
	asserts []Clause
	entry   []Clause
	follows bool     // a consequence of the base and the other non-local behaviours: the body is not looked at again
	derived bool     // the postconditions of the base behaviour (proved there) are facts at every return
	thens   []Clause // the same, at every return (in order with the asserts)
	applies []Clause // deterministic functions applied (as ghost calls) at the entry
	dec     []Clause
	local   bool // proved, but not a fact at call sites
}

type Contract struct {
	name      string
	params    []string
	results   []string
	requires  []Clause
	base      *Behavior
	behaviors []*Behavior
	modifies  []string
	pure      bool
	trusted   bool
	noauto    bool
	ghosts    []Param
	file      string
	line      int
	calls     []Clause // predicates on callback arguments
	goeson    bool     // may call on after the callback has returned false
	delegates *Expr    // F(args): returns what exactly this call returns
	inline    bool
	timeout   int
}

type LogicDef struct {
	name   string
	params []Param
	ret    Sort
	macro  bool
	body   *Expr
}

type Axiom struct {
	name  string
	e     *Expr
	term  *Term
	line  int
	given bool // used only when named
}

type Lemma struct {
	name     string
	params   []Param
	requires []Clause
	ensures  []Clause
	induct   string
	down     bool
	strong   bool
	from     *Expr
	trig     [][]*Expr
	uses     []string
	cases    []Clause
	line     int
	term     *Term
	order    int
	auto     bool
}

type Spec struct {
	contracts map[string]*Contract
	logic     map[string]*LogicDef
	axioms    []*Axiom
	lemmas    []*Lemma
	lemmaBy   map[string]*Lemma
	order     []string
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "inv": true, "behavior": true, "assumes": true,
	"func": true, "logic": true, "def": true, "axiom": true, "lemma": true, "modifies": true, "pure": true, "trusted": true,
	"use": true, "induction": true, "trigger": true, "assert": true, "entry": true, "derived": true, "follows": true, "local": true, "apply": true, "then": true, "noauto": true, "ghost": true, "calls": true, "inline": true,
	"timeout": true, "decreases": true, "auto": true, "case": true, "goeson": true, "delegates": true}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	bol := true
	n := len(src)
	ident := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < n {
		c := src[i]
		switch {
		case c == '\n':
			line++
			bol = true
			i++
			continue
		case c == ' ' || c == '\t' || c == '\r':
			i++
			continue
		case c == '/' && i+1 < n && src[i+1] == '/':
			for i < n && src[i] != '\n' {
				i++
			}
			continue
		}
		add := func(k, s string) { out = append(out, tok{k, s, line, bol}); bol = false }
		switch {
		case c >= '0' && c <= '9':
			j := i
			for j < n && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			add("int", src[i:j])
			i = j
		case ident(c):
			j := i
			for j < n && ident(src[j]) {
				j++
			}
			add("id", src[i:j])
			i = j
		case c == '\'':
			j := i + 1
			for j < n && (src[j] != '\'' || src[j-1] == '\\' && src[j-2] != '\\') {
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad char", file, line))
			}
			add("int", strconv.Itoa(int(r)))
			i = j + 1
		case c == '"':
			j := i + 1
			for j < n && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			add("str", s)
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "::", "++", "..", "+", "-", "*", "%", "/", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ":", "=", ".", ";"}
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					add("op", o)
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("%s:%d: bad character %q", file, line, c))
			}
		}
	}
	out = append(out, tok{"eof", "", line, true})
	return out
}

type parserT struct {
	file string
	src  []string
	t    []tok
	p    int
	sp   *Spec
}

func (p *parserT) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.t[p.p].line, fmt.Sprintf(f, a...), p.t[p.p].s))
}
func (p *parserT) peek() tok { return p.t[p.p] }
func (p *parserT) is(s string) bool {
	return p.t[p.p].s == s && p.t[p.p].k == "op"
}
func (p *parserT) isID(s string) bool { return p.t[p.p].s == s && p.t[p.p].k == "id" }
func (p *parserT) acc(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parserT) want(s string) {
	if !p.acc(s) {
		p.fail("expected %q", s)
	}
}
func (p *parserT) id() string {
	if p.t[p.p].k != "id" {
		p.fail("expected identifier")
	}
	p.p++
	return p.t[p.p-1].s
}

// end of clause: a clause keyword at the beginning of a line
func (p *parserT) atClause() bool {
	t := p.t[p.p]
	return t.k == "eof" || t.bol && t.k == "id" && clauseKw[t.s]
}

func sortOf(s string) (Sort, bool) {
	switch s {
	case "int":
		return SInt, true
	case "bool":
		return SBool, true
	case "seq", "string", "bytes":
		return SSeq, true
	case "seqs":
		return SSeqS, true
	case "seqb":
		return SSeqB, true
	case "seqi":
		return SSeqI, true
	case "seqf":
		return SSeqF, true
	case "seqa":
		return SSeqA, true
	case "seqr":
		return SSeqR, true
	case "err":
		return SErr, true
	case "ref":
		return SRef, true
	case "flt":
		return SFlt, true
	case "any":
		return SAny, true
	case "fn":
		return SFn, true
	case "mapc":
		return SMapC, true
	case "ints":
		return ArrSort(SInt, SInt), true
	}
	return "", false
}

func (p *parserT) params() []Param {
	var r []Param
	p.want("(")
	for !p.acc(")") {
		n := p.id()
		s := SInt
		if p.acc(":") {
			var ok bool
			s, ok = sortOf(p.id())
			if !ok {
				p.fail("bad sort")
			}
		}
		r = append(r, Param{n, s})
		if !p.is(")") {
			p.want(",")
		}
	}
	return r
}

func (p *parserT) names() []string {
	var r []string
	p.want("(")
	for !p.acc(")") {
		r = append(r, p.id())
		if !p.is(")") {
			p.want(",")
		}
	}
	return r
}

func (p *parserT) clause() Clause {
	c := Clause{line: p.peek().line}
	// label: an identifier followed by ':' (not '::')
	if p.t[p.p].k == "id" && p.t[p.p+1].k == "op" && p.t[p.p+1].s == ":" {
		c.label = p.id()
		p.want(":")
	}
	l0 := p.peek().line
	c.e = p.expr()
	if !p.atClause() {
		p.fail("junk after expression")
	}
	l1 := p.t[p.p-1].line
	c.text = strings.TrimSpace(strings.Join(p.src[l0-1:l1], " "))
	return c
}

func (p *parserT) trigs() [][]*Expr {
	var r [][]*Expr
	for p.is("{") {
		p.want("{")
		var tr []*Expr
		for !p.acc("}") {
			tr = append(tr, p.expr())
			if !p.is("}") {
				p.want(",")
			}
		}
		r = append(r, tr)
	}
	return r
}

func (p *parserT) expr() *Expr { return p.iff() }

func (p *parserT) bin(op string, a, b *Expr) *Expr {
	return &Expr{k: "bin", s: op, a: []*Expr{a, b}, line: a.line}
}

func (p *parserT) iff() *Expr {
	a := p.imp()
	for p.acc("<==>") {
		a = p.bin("<==>", a, p.imp())
	}
	return a
}
func (p *parserT) imp() *Expr {
	a := p.or()
	if p.acc("==>") {
		return p.bin("==>", a, p.imp())
	}
	return a
}
func (p *parserT) or() *Expr {
	a := p.and()
	for p.acc("||") {
		a = p.bin("||", a, p.and())
	}
	return a
}
func (p *parserT) and() *Expr {
	a := p.cmp()
	for p.acc("&&") {
		a = p.bin("&&", a, p.cmp())
	}
	return a
}
func (p *parserT) cmp() *Expr {
	a := p.add()
	var conj *Expr
	for {
		op := p.peek().s
		if p.peek().k != "op" || !(op == "==" || op == "!=" || op == "<" || op == "<=" || op == ">" || op == ">=") {
			break
		}
		p.p++
		b := p.add()
		c := p.bin(op, a, b)
		if conj == nil {
			conj = c
		} else {
			conj = p.bin("&&", conj, c)
		}
		a = b
	}
	if conj != nil {
		return conj
	}
	return a
}
func (p *parserT) add() *Expr {
	a := p.mul()
	for p.is("+") || p.is("-") || p.is("++") {
		op := p.peek().s
		p.p++
		a = p.bin(op, a, p.mul())
	}
	return a
}
func (p *parserT) mul() *Expr {
	a := p.unary()
	for p.is("*") || p.is("%") || p.is("/") {
		op := p.peek().s
		p.p++
		a = p.bin(op, a, p.unary())
	}
	return a
}
func (p *parserT) unary() *Expr {
	l := p.peek().line
	if p.acc("!") {
		return &Expr{k: "un", s: "!", a: []*Expr{p.unary()}, line: l}
	}
	if p.acc("-") {
		return &Expr{k: "un", s: "-", a: []*Expr{p.unary()}, line: l}
	}
	return p.postfix()
}
func (p *parserT) postfix() *Expr {
	e := p.primary()
	for {
		l := p.peek().line
		switch {
		case p.acc("["):
			if p.acc(":") {
				x := &Expr{k: "slice", line: l, hi: true}
				x.a = []*Expr{e, nil, p.expr()}
				p.want("]")
				e = x
				continue
			}
			i := p.expr()
			if p.acc(":") {
				x := &Expr{k: "slice", line: l, lo: true, a: []*Expr{e, i, nil}}
				if !p.is("]") {
					x.hi = true
					x.a[2] = p.expr()
				}
				p.want("]")
				e = x
				continue
			}
			p.want("]")
			e = &Expr{k: "index", a: []*Expr{e, i}, line: l}
		case p.acc("."):
			e = &Expr{k: "field", s: p.id(), a: []*Expr{e}, line: l}
		default:
			return e
		}
	}
}
func (p *parserT) primary() *Expr {
	t := p.peek()
	switch t.k {
	case "int":
		p.p++
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return &Expr{k: "int", i: n, line: t.line}
	case "str":
		p.p++
		return &Expr{k: "str", s: t.s, line: t.line}
	case "id":
		if t.s == "forall" || t.s == "exists" {
			p.p++
			x := &Expr{k: t.s, line: t.line}
			for {
				n := p.id()
				p.want(":")
				s, ok := sortOf(p.id())
				if !ok {
					p.fail("bad sort")
				}
				x.bv = append(x.bv, Param{n, s})
				if !p.acc(",") {
					break
				}
			}
			x.tr = p.trigs()
			p.want("::")
			x.a = []*Expr{p.expr()}
			return x
		}
		p.p++
		if p.is("(") {
			p.p++
			x := &Expr{k: "call", s: t.s, line: t.line}
			for !p.acc(")") {
				x.a = append(x.a, p.expr())
				if !p.is(")") {
					p.want(",")
				}
			}
			return x
		}
		return &Expr{k: "id", s: t.s, line: t.line}
	}
	if p.acc("(") {
		e := p.expr()
		p.want(")")
		return e
	}
	p.fail("bad expression")
	return nil
}

func (sp *Spec) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	sp.parse(file, string(b))
}

func (sp *Spec) parse(file, src string) {
	p := &parserT{file: file, t: lex(file, src), sp: sp, src: strings.Split(src, "\n")}
	var c *Contract
	var bh *Behavior
	var lm *Lemma
	for p.peek().k != "eof" {
		if !p.atClause() {
			p.fail("expected a clause")
		}
		ln := p.peek().line
		kw := p.id()
		switch kw {
		case "def", "logic":
			d := &LogicDef{name: p.id(), macro: kw == "def"}
			d.params = p.params()
			if kw == "logic" {
				p.want(":")
				s, ok := sortOf(p.id())
				if !ok {
					p.fail("bad sort")
				}
				d.ret = s
				var as []Sort
				for _, q := range d.params {
					as = append(as, q.sort)
				}
				Declare(d.name, d.ret, as...)
			}
			if p.acc("=") {
				d.body = p.expr()
			}
			if _, dup := sp.logic[d.name]; dup {
				p.fail("duplicate %s", d.name)
			}
			sp.logic[d.name] = d
			if kw == "logic" && d.body != nil {
				// definitional axiom
				var bv []Param
				call := &Expr{k: "call", s: d.name, line: ln}
				for _, q := range d.params {
					bv = append(bv, q)
					call.a = append(call.a, &Expr{k: "id", s: q.name, line: ln})
				}
				op := "=="
				if d.ret == SBool {
					op = "<==>"
				}
				e := &Expr{k: "forall", bv: bv, tr: [][]*Expr{{call}}, a: []*Expr{p.bin(op, call, d.body)}, line: ln}
				if len(bv) == 0 {
					e = e.a[0]
				}
				sp.axioms = append(sp.axioms, &Axiom{name: "def_" + d.name, e: e, line: ln})
			}
			if !p.atClause() {
				p.fail("junk")
			}
			c, lm = nil, nil
		case "axiom":
			a := &Axiom{line: ln}
			a.name = p.id()
			p.want(":")
			a.e = p.expr()
			sp.axioms = append(sp.axioms, a)
			if !p.atClause() {
				p.fail("junk")
			}
		case "lemma":
			lm = &Lemma{line: ln, name: p.id(), order: len(sp.lemmas)}
			lm.params = p.params()
			sp.lemmas = append(sp.lemmas, lm)
			if sp.lemmaBy[lm.name] != nil {
				p.fail("duplicate lemma")
			}
			sp.lemmaBy[lm.name] = lm
			c = nil
		case "func":
			lm = nil
			n := p.id()
			for p.acc(".") {
				n += "." + p.id()
			}
			c = &Contract{name: n, file: file, line: ln, base: &Behavior{name: "base"}}
			c.params = p.names()
			if p.is("(") {
				c.results = p.names()
			}
			if sp.contracts[n] != nil {
				p.fail("duplicate contract %s", n)
			}
			sp.contracts[n] = c
			sp.order = append(sp.order, n)
			bh = c.base
		case "behavior":
			bh = &Behavior{name: p.id()}
			c.behaviors = append(c.behaviors, bh)
		case "requires":
			if lm != nil {
				lm.requires = append(lm.requires, p.clause())
			} else {
				c.requires = append(c.requires, p.clause())
			}
		case "ensures":
			if lm != nil {
				lm.ensures = append(lm.ensures, p.clause())
			} else {
				bh.ensures = append(bh.ensures, p.clause())
			}
		case "case":
			lm.cases = append(lm.cases, p.clause())
		case "assumes":
			bh.assumes = append(bh.assumes, p.clause())
		case "inv":
			bh.invs = append(bh.invs, p.clause())
		case "then":
			bh.thens = append(bh.thens, p.clause())
			bh.asserts = append(bh.asserts, bh.thens[len(bh.thens)-1])
			bh.asserts[len(bh.asserts)-1].apply = true
		case "apply":
			bh.applies = append(bh.applies, p.clause())
		case "entry":
			bh.entry = append(bh.entry, p.clause())
		case "assert":
			bh.asserts = append(bh.asserts, p.clause())
		case "decreases":
			bh.dec = append(bh.dec, p.clause())
		case "calls":
			c.calls = append(c.calls, p.clause())
		case "modifies":
			for !p.atClause() {
				n := p.id()
				for p.acc(".") {
					n += "." + p.id()
				}
				c.modifies = append(c.modifies, n)
				p.acc(",")
			}
		case "ghost":
			n := p.id()
			p.want(":")
			s, _ := sortOf(p.id())
			c.ghosts = append(c.ghosts, Param{n, s})
		case "local":
			bh.local = true
		case "follows":
			bh.follows, bh.local = true, true
		case "derived":
			bh.derived = true
		case "pure":
			c.pure = true
		case "trusted":
			c.trusted = true
		case "goeson":
			c.goeson = true
		case "delegates":
			c.delegates = p.expr()
		case "noauto":
			c.noauto = true
		case "inline":
			c.inline = true
		case "timeout":
			c.timeout, _ = strconv.Atoi(p.peek().s)
			p.p++
		case "auto":
			lm.auto = true
		case "use":
			for !p.atClause() {
				n := p.id()
				if lm != nil {
					lm.uses = append(lm.uses, n)
				} else {
					bh.uses = append(bh.uses, n)
				}
				p.acc(",")
			}
		case "induction":
			if p.isID("strong") {
				p.p++
				lm.strong = true
			} else if p.isID("down") {
				p.p++
				lm.down = true
			}
			lm.induct = p.id()
			if p.isID("from") {
				p.p++
				lm.from = p.expr()
			} else {
				lm.from = &Expr{k: "int", i: 0, line: ln}
			}
		case "trigger":
			lm.trig = append(lm.trig, p.trigs()...)
		}
	}
}
