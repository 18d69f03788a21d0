package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env evaluates contract expressions.
type Env struct {
	x      *Exec
	st     *State
	old    *State
	vars   map[string]Val
	fr     *Frame
	loop   *ssa.BasicBlock
	con    *Contract
	atCall bool
	bound  []map[string]*Term
	news   []*Term
	depth  int
	ret    bool
}

type evalErr string

func (e evalErr) Error() string { return string(e) }

func bad(f string, a ...interface{}) { panic(evalErr(fmt.Sprintf(f, a...))) }

func (e *Env) withOld() *Env {
	n := *e
	n.st = e.old
	return &n
}

func (e *Env) boolean(ex *Expr) (t *Term, err error) {
	v, err := e.val(ex)
	if err != nil {
		return nil, err
	}
	if v.t == nil || v.t.sort != SBool {
		return nil, fmt.Errorf("line %d: not a boolean", ex.line)
	}
	return v.t, nil
}

func (e *Env) integer(ex *Expr) (t *Term, err error) {
	v, err := e.val(ex)
	if err != nil {
		return nil, err
	}
	if v.t == nil || v.t.sort != SInt {
		return nil, fmt.Errorf("line %d: not an integer", ex.line)
	}
	return v.t, nil
}

func (e *Env) val(ex *Expr) (v Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = fmt.Errorf("line %d: %s", ex.line, string(ee))
				return
			}
			if s, ok := r.(string); ok {
				err = fmt.Errorf("line %d: %s", ex.line, s)
				return
			}
			panic(r)
		}
	}()
	return e.eval(ex), nil
}

func (e *Env) name(n string) (Val, bool) {
	for i := len(e.bound) - 1; i >= 0; i-- {
		if t, ok := e.bound[i][n]; ok {
			return Val{t: t}, true
		}
	}
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	if e.x != nil && e.x.ghosts != nil {
		if t, ok := e.x.ghosts[n]; ok {
			return Val{t: t}, true
		}
	}
	if e.x != nil && e.x.cbCells != nil {
		if c, ok := e.x.cbCells[n]; ok && e.st != nil {
			return e.st.cells[c], true
		}
	}
	if n == "iter" && e.x != nil && e.x.iterCell != nil && e.st != nil {
		if v, ok := e.st.cells[e.x.iterCell]; ok {
			return v, true
		}
	}
	if e.fr != nil {
		return e.local(n)
	}
	return Val{}, false
}

// local resolves a local variable by name: the innermost dominating one.
func (e *Env) local(n string) (Val, bool) {
	for fr := e.fr; fr != nil; fr = fr.parent {
		var best *Cell
		for a, c := range fr.cells {
			if a.Comment != n {
				continue
			}
			if _, ok := e.st.cells[c]; !ok {
				continue
			}
			if fr == e.fr && e.loop != nil && !(a.Block() == nil || a.Block().Dominates(e.loop)) {
				continue
			}
			if best == nil || a.Pos() > best.al.Pos() {
				best = c
			}
		}
		if best != nil {
			return e.st.cells[best], true
		}
	}
	return Val{}, false
}

func (e *Env) eval(ex *Expr) Val {
	switch ex.k {
	case "int":
		return Val{t: I(ex.i)}
	case "str":
		return Val{t: Lit(ex.s)}
	case "id":
		switch ex.s {
		case "true":
			return Val{t: True}
		case "false":
			return Val{t: False}
		case "nil":
			return Val{spec: "nil"}
		}
		if v, ok := e.name(ex.s); ok {
			if v.fam != 0 && e.st != nil && e.x != nil && !e.x.readable(e.st, v) {
				bad("stale value %s", ex.s)
			}
			return v
		}
		switch ex.s { // a program variable of this name goes first
		case "empty":
			return Val{t: Empty(SSeq)}
		case "emptys":
			return Val{t: Empty(SSeqS)}
		}
		if d, ok := C.funs[ex.s]; ok && len(d.args) == 0 {
			return Val{t: App(ex.s)}
		}
		bad("unknown name %s", ex.s)
	case "un":
		v := e.eval(ex.a[0])
		if v.t == nil {
			bad("operand of %s", ex.s)
		}
		if ex.s == "!" {
			if v.t.sort != SBool {
				bad("! on non-boolean")
			}
			return Val{t: Not(v.t)}
		}
		return Val{t: Sub(I(0), v.t)}
	case "bin":
		return e.binary(ex)
	case "index":
		s, i := e.eval(ex.a[0]), e.eval(ex.a[1])
		if s.t == nil || i.t == nil {
			bad("index")
		}
		if strings.HasPrefix(string(s.t.sort), "(Array") {
			return Val{t: Select(s.t, i.t)}
		}
		if !isSeq(s.t.sort) || i.t.sort != SInt {
			bad("index of %s", s.t.sort)
		}
		return Val{t: SeqAt(s.t, i.t)}
	case "slice":
		s := e.eval(ex.a[0])
		if s.t == nil || !isSeq(s.t.sort) {
			bad("slice of non-sequence")
		}
		lo, hi := I(0), SeqLen(s.t)
		if ex.lo {
			lo = e.eval(ex.a[1]).t
		}
		if ex.hi {
			hi = e.eval(ex.a[2]).t
		}
		return Val{t: SeqSub(s.t, lo, hi)}
	case "field":
		s := e.eval(ex.a[0])
		if s.t == nil || s.t.sort != SRef || s.ty == nil {
			bad("field %s of a non-pointer", ex.s)
		}
		sT := deref(s.ty)
		stt, ok := isStructT(sT)
		if !ok {
			bad("field %s", ex.s)
		}
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == ex.s {
				return e.x.loadField(e.st, s.t, typeName(sT)+"."+ex.s, stt.Field(i).Type())
			}
		}
		bad("no field %s", ex.s)
	case "forall", "exists":
		m := map[string]*Term{}
		var bv []*Term
		for _, p := range ex.bv {
			b := Bound(p.name, p.sort)
			m[p.name] = b
			bv = append(bv, b)
		}
		e.bound = append(e.bound, m)
		body := e.eval(ex.a[0]).t
		var trs [][]*Term
		for _, tr := range ex.tr {
			var ts []*Term
			for _, q := range tr {
				ts = append(ts, e.eval(q).t)
			}
			trs = append(trs, ts)
		}
		e.bound = e.bound[:len(e.bound)-1]
		if body == nil || body.sort != SBool {
			bad("quantifier body")
		}
		if ex.k == "exists" {
			return Val{t: Not(Forall(bv, trs, Not(body)))}
		}
		return Val{t: Forall(bv, trs, body)}
	case "call":
		return e.callExpr(ex)
	}
	bad("expression %s", ex.k)
	return Val{}
}

func (e *Env) binary(ex *Expr) Val {
	a := e.eval(ex.a[0])
	b := e.eval(ex.a[1])
	switch ex.s {
	case "==", "!=":
		var r *Term
		if a.spec == "nil" {
			a, b = b, a
		}
		if b.spec == "nil" {
			switch {
			case a.nilp != nil:
				r = a.nilp
			case a.t != nil && a.t.sort == SErr:
				r = Eq(a.t, ZeroOf(SErr))
			case a.t != nil && a.t.sort == SRef:
				r = Eq(a.t, ZeroOf(SRef))
			default:
				bad("nil test")
			}
		} else {
			if a.t == nil || b.t == nil || a.t.sort != b.t.sort {
				bad("== on different sorts %v %v", a.t, b.t)
			}
			r = Eq(a.t, b.t)
		}
		if ex.s == "!=" {
			r = Not(r)
		}
		return Val{t: r}
	}
	if a.t == nil || b.t == nil {
		bad("operand of %s", ex.s)
	}
	ints := func() {
		if a.t.sort != SInt || b.t.sort != SInt {
			bad("%s on %s, %s", ex.s, a.t.sort, b.t.sort)
		}
	}
	bools := func() {
		if a.t.sort != SBool || b.t.sort != SBool {
			bad("%s on %s, %s", ex.s, a.t.sort, b.t.sort)
		}
	}
	switch ex.s {
	case "&&":
		bools()
		return Val{t: And(a.t, b.t)}
	case "||":
		bools()
		return Val{t: Or(a.t, b.t)}
	case "==>":
		bools()
		return Val{t: Implies(a.t, b.t)}
	case "<==>":
		bools()
		return Val{t: Eq(a.t, b.t)}
	case "<":
		ints()
		return Val{t: Lt(a.t, b.t)}
	case "<=":
		ints()
		return Val{t: Le(a.t, b.t)}
	case ">":
		ints()
		return Val{t: Lt(b.t, a.t)}
	case ">=":
		ints()
		return Val{t: Le(b.t, a.t)}
	case "+":
		ints()
		return Val{t: Add(a.t, b.t)}
	case "-":
		ints()
		return Val{t: Sub(a.t, b.t)}
	case "*":
		ints()
		return Val{t: Mul(a.t, b.t)}
	case "%":
		ints()
		if b.t.op != "int" {
			bad("modulus")
		}
		return Val{t: Mod(a.t, b.t.i)}
	case "/":
		ints()
		return Val{t: DivT(a.t, b.t.i)}
	case "++":
		if a.t.sort != b.t.sort || !isSeq(a.t.sort) {
			bad("++ on %s, %s", a.t.sort, b.t.sort)
		}
		return Val{t: Cat(a.t.sort, a.t, b.t)}
	}
	bad("operator %s", ex.s)
	return Val{}
}

func (e *Env) callExpr(ex *Expr) Val {
	arg := func(i int) Val {
		if i >= len(ex.a) {
			bad("%s: missing argument", ex.s)
		}
		return e.eval(ex.a[i])
	}
	switch ex.s {
	case "len":
		v := arg(0)
		if v.t == nil || !isSeq(v.t.sort) {
			bad("len")
		}
		return Val{t: SeqLen(v.t)}
	case "ite":
		c, a, b := arg(0), arg(1), arg(2)
		if c.t.sort != SBool || a.t.sort != b.t.sort {
			bad("ite")
		}
		return Val{t: Ite(c.t, a.t, b.t)}
	case "old":
		n := *e
		n.st = e.old
		return n.eval(ex.a[0])
	case "absent", "present": // whether a name is in scope (of a loop)
		_, ok := e.local(ex.a[0].s)
		if ok != (ex.s == "present") {
			bad("not here")
		}
		return Val{t: True}
	case "cur": // the current value of a local or of a parameter variable
		v, ok := e.local(ex.a[0].s)
		if !ok {
			bad("no local %s", ex.a[0].s)
		}
		if v.fam != 0 && !e.x.readable(e.st, v) {
			bad("stale value %s", ex.a[0].s)
		}
		return v
	case "nopath":
		return Val{t: Empty(SSeqS)}
	case "mapc": // what a map holds
		v := arg(0)
		if v.t == nil || v.t.sort != SMap {
			bad("mapc")
		}
		if v.addr == nil { // the nil map
			return Val{t: App("mempty")}
		}
		c, ok := e.st.cells[v.addr.cell]
		if !ok {
			bad("mapc")
		}
		return Val{t: c.t}
	case "nilif": // the slice value with this nil flag
		v := arg(0)
		v.nilp = arg(1).t
		return v
	case "isnil":
		v := arg(0)
		if v.t != nil && v.t.sort == SMap {
			return Val{t: Eq(v.t, ZeroOf(SMap))}
		}
		if v.nilp == nil {
			bad("isnil")
		}
		return Val{t: v.nilp}
	case "fresh": // memory not reachable by the caller before the call
		v := arg(0)
		if v.frsh == nil {
			bad("fresh")
		}
		if e.atCall {
			return Val{t: v.frsh}
		}
		if v.fam == 0 || !e.x.current(e.st, v) {
			return Val{t: v.nilp}
		}
		return Val{t: Or(v.frsh, v.nilp)}
	case "isnew":
		v := arg(0)
		if e.atCall {
			e.news = append(e.news, v.t)
			return Val{t: True}
		}
		for _, r := range e.x.newRefs[e.x.entryRefs:] {
			if r == v.t {
				return Val{t: True}
			}
		}
		return Val{t: False}
	case "unit":
		v := arg(0)
		if v.t.sort == SInt {
			return Val{t: List(SSeq, v.t)}
		}
		return Val{t: List(seqOf[v.t.sort], v.t)}
	case "unit_int":
		return Val{t: List(SSeqI, arg(0).t)}
	case "box":
		return Val{t: boxTerm(arg(0).t)}
	case "store":
		return Val{t: Store(arg(0).t, arg(1).t, arg(2).t)}
	case "select":
		return Val{t: Select(arg(0).t, arg(1).t)}
	case "upd":
		return Val{t: SeqUpd(arg(0).t, arg(1).t, arg(2).t)}
	case "zeros":
		return Val{t: Zeros(SSeq, arg(0).t)}
	case "fn": // fn(F_0, args...): result 0 of the deterministic function F
		return e.pureCall(ex)
	}
	if d := theSpec.logic[ex.s]; d != nil && d.macro {
		if len(d.params) != len(ex.a) {
			bad("%s: %d arguments, want %d", ex.s, len(ex.a), len(d.params))
		}
		if e.depth > 60 {
			bad("macro recursion in %s", ex.s)
		}
		n := &Env{x: e.x, st: e.st, old: e.old, vars: map[string]Val{}, con: e.con, atCall: e.atCall, depth: e.depth + 1}
		for i, p := range d.params {
			n.vars[p.name] = e.eval(ex.a[i])
		}
		v := n.eval(d.body)
		e.news = append(e.news, n.news...)
		return v
	}
	d, ok := C.funs[ex.s]
	if !ok {
		bad("unknown function %s", ex.s)
	}
	if len(d.args) != len(ex.a) {
		bad("%s: %d arguments, want %d", ex.s, len(ex.a), len(d.args))
	}
	var ts []*Term
	for i := range ex.a {
		v := arg(i)
		if v.t == nil || v.t.sort != d.args[i] {
			bad("%s: argument %d has sort %v, want %s", ex.s, i, v.t, d.args[i])
		}
		ts = append(ts, v.t)
	}
	return Val{t: App(ex.s, ts...)}
}

// pureCall: result(F, i, args...) as a function of the arguments
func (e *Env) pureCall(ex *Expr) Val {
	if len(ex.a) < 2 || ex.a[0].k != "id" && ex.a[0].k != "field" || ex.a[1].k != "int" {
		bad("fn(F, i, args...)")
	}
	name := exprName(ex.a[0])
	fn := e.x.prog.funcs[name]
	con := theSpec.contracts[name]
	if fn == nil || con == nil || !con.pure {
		bad("fn: %s is not a function with a pure contract", name)
	}
	var args []Val
	for i := range ex.a[2:] {
		v := e.eval(ex.a[2+i])
		if v.spec == "nil" {
			v = e.x.zero(fn.Params[i].Type(), token.NoPos)
		}
		args = append(args, v)
	}
	if len(args) != len(fn.Params) {
		bad("fn: %s wants %d arguments", name, len(fn.Params))
	}
	i := int(ex.a[1].i)
	return e.x.pureResult(e.st, con, fn, i, args, fn.Signature.Results().At(i).Type())
}

func exprName(e *Expr) string {
	if e.k == "field" {
		return exprName(e.a[0]) + "." + e.s
	}
	return e.s
}

func (e *Env) finishNew(pos token.Pos) {
	for _, n := range e.news {
		e.x.fact(e.st, Not(Eq(n, ZeroOf(SRef))))
		for _, r := range e.x.newRefs {
			e.x.fact(e.st, Not(Eq(n, r)))
		}
		e.x.newRefs = append(e.x.newRefs, n)
	}
}

func (x *Exec) rootEnv(st *State) *Env {
	e := &Env{x: x, st: st, old: x.entry, vars: map[string]Val{}, con: x.con}
	for k, v := range x.params {
		e.vars[k] = v
	}
	return e
}

// ---- candidate invariants ---------------------------------------------------

type candInst struct {
	cand *Cand
	eval func(*State) (*Term, bool)
}

func (x *Exec) gatherCands(fr *Frame, header *ssa.BasicBlock, lid string, ent, hd *State, modified []*Cell, pos token.Pos) []candInst {
	var out []candInst
	add := func(key, text string, auto bool, beh string, eval func(*State) (*Term, bool)) {
		k := lid + "|" + key
		if x.dropped[k] {
			return
		}
		given := beh == "base" && !x.isBase
		if given && !x.given[k] {
			return
		}
		t0, ok := eval(ent)
		if !ok {
			return
		}
		t1, ok := eval(hd)
		if !ok {
			return
		}
		if t1 == True {
			return
		}
		c := x.cands[k]
		if c == nil {
			c = &Cand{key: k, en: Var("en!"+fmt.Sprint(len(x.cands)), SBool), text: text, auto: auto, beh: beh, given: given}
			x.cands[k] = c
			x.candL = append(x.candL, c)
		}
		c.dropped = false
		if !given {
			v := x.vc(ent, "inv-init", lid+" establishes: "+text, t0, fr.fn.Pos())
			v.cand = c
			hd.node.facts = append(hd.node.facts, Implies(c.en, Implies(hd.node.pc, t1)))
		} else {
			x.assume(hd, t1)
		}
		out = append(out, candInst{c, eval})
	}
	cn := func(c *Cell) string { return fmt.Sprintf("%s:%d", c.name, allocIdx(c)) }
	// a loop that changes other variables than the loops of the reference tree
	wide := false
	if x.wide {
		names := map[string]bool{}
		for _, c := range modified {
			if v := hd.cells[c]; v.t != nil && v.t.sort == SInt && c.ty != nil && !isByte(c.ty) {
				names[c.name] = true
			}
		}
		wide = len(names) > 0 && !x.known[strings.Join(sortedKeys(names), " ")]
	}
	clauses := func(b *Behavior) {
		if b == nil {
			return
		}
		for i, cl := range b.invs {
			cl := cl
			add(fmt.Sprintf("%s#%d", b.name, i), cl.text, false, b.name, func(st *State) (*Term, bool) {
				e := x.rootEnv(st)
				e.fr = fr
				e.loop = header
				t, err := e.boolean(cl.e)
				if err != nil {
					return nil, false
				}
				return t, true
			})
			if wide {
				e := x.rootEnv(hd)
				e.fr = fr
				e.loop = header
				_, err := e.boolean(cl.e)
				if err == nil {
					continue
				}
				_, name, ok := strings.Cut(err.Error(), "unknown name ")
				if !ok {
					continue
				}
				for _, c := range modified {
					if v := hd.cells[c]; v.t == nil || v.t.sort != SInt || c.ty == nil || isByte(c.ty) {
						continue
					}
					c := c
					for _, off := range []int64{-1, 0, 1} {
						off := off
						add(fmt.Sprintf("%s#%d~%s:%d:%d", b.name, i, c.name, allocIdx(c), off), fmt.Sprintf("%s  [%s = %s%+d]", cl.text, name, c.name, off), true, x.bname(), func(st *State) (*Term, bool) {
							v, ok := st.cells[c]
							if !ok || v.t == nil {
								return nil, false
							}
							e := x.rootEnv(st)
							e.fr = fr
							e.loop = header
							e.vars[name] = Val{t: Add(v.t, I(off))}
							t, err := e.boolean(cl.e)
							return t, err == nil
						})
						x.widened++
					}
				}
			}
		}
	}
	if x.con != nil {
		clauses(x.con.base)
		if !x.isBase {
			clauses(x.beh)
		}
	}
	cellv := func(c *Cell, f func(Val) *Term) func(*State) (*Term, bool) {
		return func(st *State) (*Term, bool) {
			v, ok := st.cells[c]
			if !ok || v.t == nil {
				return nil, false
			}
			t := f(v)
			return t, t != nil
		}
	}
	isMod := map[*Cell]bool{}
	for _, c := range modified {
		isMod[c] = true
	}
	var ints []*Cell
	var all []*Cell
	for c := range hd.cells {
		all = append(all, c)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, c := range all {
		v := hd.cells[c]
		if v.t != nil && v.t.sort == SInt && c.ty != nil && !isByte(c.ty) {
			ints = append(ints, c)
		}
	}
	// sequences whose lengths bound the integers
	type sq struct {
		name string
		t    *Term
	}
	var seqs []sq
	for _, p := range x.con.params {
		if v, ok := x.params[p]; ok && v.t != nil && isSeq(v.t.sort) {
			seqs = append(seqs, sq{p, v.t})
		}
	}
	for _, c := range all {
		v := hd.cells[c]
		if v.t != nil && isSeq(v.t.sort) && !isMod[c] && v.t.sort != SSeqB {
			dup := false
			for _, s := range seqs {
				if s.t == v.t {
					dup = true
				}
			}
			if !dup && SeqLen(v.t).op != "int" && len(seqs) < 6 {
				seqs = append(seqs, sq{cn(c), v.t})
			}
		}
	}
	for _, c := range modified {
		c := c
		hv := hd.cells[c]
		if hv.t == nil {
			continue
		}
		switch {
		case hv.t.sort == SInt && !isByte(c.ty):
			e0 := ent.cells[c].t
			add("ge0:"+cn(c), "0 <= "+c.name, true, "base", cellv(c, func(v Val) *Term { return Le(I(0), v.t) }))
			add("gem1:"+cn(c), "-1 <= "+c.name, true, "base", cellv(c, func(v Val) *Term { return Le(I(-1), v.t) }))
			add("geent:"+cn(c), "entry <= "+c.name, true, "base", cellv(c, func(v Val) *Term { return Le(e0, v.t) }))
			add("leent:"+cn(c), c.name+" <= entry", true, "base", cellv(c, func(v Val) *Term { return Le(v.t, e0) }))
			for _, s := range seqs {
				s := s
				add("lelen:"+cn(c)+":"+s.name, c.name+" <= len("+s.name+")", true, "base", cellv(c, func(v Val) *Term { return Le(v.t, SeqLen(s.t)) }))
				add("ltlen:"+cn(c)+":"+s.name, c.name+" < len("+s.name+")", true, "base", cellv(c, func(v Val) *Term { return Lt(v.t, SeqLen(s.t)) }))
			}
		case hv.t.sort == SBool && c.ty != nil:
			add("true:"+cn(c), c.name, true, "base", cellv(c, func(v Val) *Term { return v.t }))
			add("false:"+cn(c), "!"+c.name, true, "base", cellv(c, func(v Val) *Term { return Not(v.t) }))
		case hv.t.sort == SSeqB && !x.tabFull[c]:
			for k := range x.tabForm[c] {
				k := k
				add(fmt.Sprintf("tabt:%s:%d", cn(c), k), fmt.Sprintf("%s[%d]", c.name, k), true, "base", cellv(c, func(v Val) *Term { return SeqAt(v.t, I(k)) }))
				add(fmt.Sprintf("tabf:%s:%d", cn(c), k), fmt.Sprintf("!%s[%d]", c.name, k), true, "base", cellv(c, func(v Val) *Term { return Not(SeqAt(v.t, I(k))) }))
			}
		}
		if hv.nilp != nil {
			add("fresh:"+cn(c), "fresh "+c.name, true, "base", cellv(c, func(v Val) *Term {
				if v.frsh == nil {
					return False
				}
				return v.frsh
			}))
			add("freshnil:"+cn(c), "fresh or nil "+c.name, true, "base", cellv(c, func(v Val) *Term {
				if v.frsh == nil || v.nilp == nil {
					return nil
				}
				return Or(v.frsh, v.nilp)
			}))
			add("notnil:"+cn(c), "not nil "+c.name, true, "base", cellv(c, func(v Val) *Term {
				if v.nilp == nil {
					return False
				}
				return Not(v.nilp)
			}))
		}
		if isSeq(hv.t.sort) && hv.t.sort != SSeqB {
			e0 := ent.cells[c].t
			add("samelen:"+cn(c), "len unchanged "+c.name, true, "base", cellv(c, func(v Val) *Term { return Eq(SeqLen(v.t), SeqLen(e0)) }))
			add("longer:"+cn(c), "len not smaller "+c.name, true, "base", cellv(c, func(v Val) *Term { return Le(SeqLen(e0), SeqLen(v.t)) }))
		}
	}
	if len(ints) <= 14 && !x.con.noauto {
		for _, a := range ints {
			for _, b := range ints {
				if a == b || !(isMod[a] || isMod[b]) {
					continue
				}
				a, b := a, b
				two := func(k int64) func(st *State) (*Term, bool) {
					return func(st *State) (*Term, bool) {
						u, ok1 := st.cells[a]
						w, ok2 := st.cells[b]
						if !ok1 || !ok2 {
							return nil, false
						}
						return Le(Add(u.t, I(k)), w.t), true
					}
				}
				if hd.cells[a].t.op == "int" || hd.cells[b].t.op == "int" {
					continue
				}
				if wide && isMod[a] && isMod[b] && a.id < b.id {
					ea, eb := ent.cells[a].t, ent.cells[b].t
					pair := func(sum bool) func(st *State) (*Term, bool) {
						return func(st *State) (*Term, bool) {
							u, ok1 := st.cells[a]
							w, ok2 := st.cells[b]
							if !ok1 || !ok2 {
								return nil, false
							}
							if sum {
								return Eq(Add(u.t, w.t), Add(ea, eb)), true
							}
							return Eq(Sub(u.t, w.t), Sub(ea, eb)), true
						}
					}
					add("sum:"+cn(a)+":"+cn(b), a.name+" + "+b.name+" unchanged", true, x.bname(), pair(true))
					add("diff:"+cn(a)+":"+cn(b), a.name+" - "+b.name+" unchanged", true, x.bname(), pair(false))
					x.widened++
				}
				add("le:"+cn(a)+":"+cn(b), a.name+" <= "+b.name, true, "base", two(0))
				add("lt:"+cn(a)+":"+cn(b), a.name+" < "+b.name, true, "base", two(1))
			}
		}
	}
	return out
}

func allocIdx(c *Cell) int {
	if c.al == nil {
		return 0
	}
	n := 0
	for _, b := range c.al.Parent().Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == c.name {
				if a == c.al {
					return n
				}
				n++
			}
		}
	}
	return -1
}

func (x *Exec) measures(fr *Frame, l *Loop, lid string, pos token.Pos, hd *State, modified []*Cell, backs []*State) {
	if !x.isBase || len(backs) == 0 {
		return
	}
	m := &Measure{loop: lid, pos: x.prog.pos(pos)}
	type cand struct {
		name string
		f    func(*State) (*Term, bool)
	}
	var cs []cand
	for _, d := range x.con.base.dec {
		d := d
		cs = append(cs, cand{d.text, func(st *State) (*Term, bool) {
			e := x.rootEnv(st)
			e.fr = fr
			e.loop = l.header
			t, err := e.integer(d.e)
			return t, err == nil
		}})
	}
	isMod := map[*Cell]bool{}
	for _, c := range modified {
		isMod[c] = true
	}
	var bounds []cand
	seen := map[*Term]bool{}
	for _, p := range x.con.params {
		if v, ok := x.params[p]; ok && v.t != nil && isSeq(v.t.sort) && !seen[SeqLen(v.t)] {
			t := SeqLen(v.t)
			seen[t] = true
			bounds = append(bounds, cand{"len(" + p + ")", func(*State) (*Term, bool) { return t, true }})
		}
	}
	var all []*Cell
	for c := range hd.cells {
		all = append(all, c)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, c := range all {
		v := hd.cells[c]
		if v.t == nil || isMod[c] {
			continue
		}
		var t *Term
		if isSeq(v.t.sort) && v.t.sort != SSeqB {
			t = SeqLen(v.t)
		} else if v.t.sort == SInt && c.ty != nil && !isByte(c.ty) {
			t = v.t
		}
		if t != nil && !seen[t] && t.op != "int" {
			seen[t] = true
			tt := t
			bounds = append(bounds, cand{c.name, func(*State) (*Term, bool) { return tt, true }})
		}
	}
	// bounds read off the header's comparisons (registers computed before the loop)
	for _, in := range l.header.Instrs {
		if b, ok := in.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if r, ok := fr.regs[o]; ok && r.t != nil && r.t.sort == SInt && !seen[r.t] {
					if oi, ok := o.(ssa.Instruction); ok && !l.blocks[oi.Block()] {
						seen[r.t] = true
						tt := r.t
						bounds = append(bounds, cand{o.Name(), func(*State) (*Term, bool) { return tt, true }})
					}
				}
			}
		}
	}
	for _, c := range modified {
		c := c
		hv := hd.cells[c]
		if hv.t == nil || hv.t.sort != SInt || c.ty == nil || isByte(c.ty) {
			continue
		}
		up := true
		down := true
		for _, b := range backs {
			d := Sub(b.cells[c].t, hv.t)
			if d.op == "int" && d.i <= 0 {
				up = false
			}
			if d.op == "int" && d.i >= 0 {
				down = false
			}
		}
		if up {
			for _, bd := range bounds {
				bd := bd
				cs = append(cs, cand{bd.name + " - " + c.name, func(st *State) (*Term, bool) {
					t, _ := bd.f(st)
					return Sub(t, st.cells[c].t), true
				}})
			}
		}
		if down {
			cs = append(cs, cand{c.name, func(st *State) (*Term, bool) { return st.cells[c].t, true }})
			cs = append(cs, cand{c.name + "+1", func(st *State) (*Term, bool) { return Add(st.cells[c].t, I(1)), true }})
		}
	}
	for _, k := range cs {
		h, ok := k.f(hd)
		if !ok {
			continue
		}
		var vs []*VC
		good := true
		for _, b := range backs {
			t, ok := k.f(b)
			if !ok {
				good = false
				break
			}
			v := &VC{name: lid + " terminates: " + k.name, kind: "term", node: b.node, nfacts: len(b.node.facts), goal: Implies(b.node.pc, And(Lt(t, h), Le(I(0), h))), pos: x.prog.pos(pos)}
			vs = append(vs, v)
		}
		if good {
			m.alts = append(m.alts, vs)
		}
	}
	x.meas = append(x.meas, m)
}

// ---- verifying one function ----------------------------------------------------

func newExec(prog *Program, sp *Spec, con *Contract, beh *Behavior, isBase bool) *Exec {
	return &Exec{prog: prog, spec: sp, con: con, beh: beh, isBase: isBase, cands: map[string]*Cand{}, params: map[string]Val{},
		ghosts: map[string]*Term{}, fams: []int{0}, inlined: map[string]bool{}, called: map[string]bool{}, extern: map[string]bool{},
		given: map[string]bool{}, dropped: map[string]bool{}, loopFam: map[*Cell]int{}, tabForm: map[*Cell]map[int64]bool{}, tabFull: map[*Cell]bool{}}
}

// generate produces the verification conditions of one behaviour of a function.
func (x *Exec) generate() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s: outside the verifier's reach: %s", u.pos, u.msg)
				return
			}
			panic(r)
		}
	}()
	fn := x.prog.funcs[x.con.name]
	if fn == nil {
		return fmt.Errorf("function %s not found", x.con.name)
	}
	n := x.newNode()
	n.pc = True
	st := &State{node: n, cells: map[*Cell]Val{}, heap: map[string]*Term{}, vers: map[int]verPair{}}
	x.entry = &State{node: n, cells: map[*Cell]Val{}, heap: map[string]*Term{}, vers: map[int]verPair{}}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, cells: map[*ssa.Alloc]*Cell{}, path: x.con.name}
	x.root = fr
	if len(x.con.params) != len(fn.Params) {
		return fmt.Errorf("contract of %s names %d parameters, the function has %d", x.con.name, len(x.con.params), len(fn.Params))
	}
	hasCb := false
	for i, p := range fn.Params {
		nm := x.con.params[i]
		s, ok := goSort(p.Type())
		if !ok {
			x.unsup(fn.Pos(), "parameter of type %s", p.Type())
		}
		v := Val{ty: p.Type(), t: Var(nm, s)}
		if isSliceT(p.Type()) {
			v.nilp = Var(nm+"!nil", SBool)
			v.frsh = False
			x.fact(st, Implies(v.nilp, Eq(v.t, Empty(s))))
		}
		if s == SRef {
			x.newRefs = append(x.newRefs, v.t) // known at entry: distinct from later allocations
		}
		x.typeFacts(st, v)
		x.params[nm] = v
		fr.regs[p] = v
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			hasCb = true
		}
	}
	entryRefs := len(x.newRefs)
	x.entryRefs = entryRefs
	if hasCb {
		x.cbCells = map[string]*Cell{}
		mk := func(n string, t *Term, ty types.Type) {
			x.ncell++
			c := &Cell{name: n, id: x.ncell, ty: ty}
			x.cbCells[n] = c
			st.cells[c] = Val{t: t, ty: ty}
			x.entry.cells[c] = st.cells[c]
		}
		mk("ncalls", I(0), types.Typ[types.Int])
		mk("stopped", False, types.Typ[types.Bool])
		mk("cberr", ZeroOf(SErr), types.Universe.Lookup("error").Type())
		mk("cbkeep", True, types.Typ[types.Bool])
	}
	if x.con.delegates != nil {
		x.ncell++
		x.dgCell = &Cell{name: "delegated", id: x.ncell, ty: types.Typ[types.Int]}
		st.cells[x.dgCell] = Val{t: I(0), ty: types.Typ[types.Int]}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			x.ncell++
			t := fn.Signature.Results().At(i).Type()
			c := &Cell{name: "delegated.r", id: x.ncell, ty: t}
			x.dgRes = append(x.dgRes, c)
			st.cells[c] = x.zero(t, fn.Pos())
		}
	}
	for _, g := range x.con.ghosts {
		x.ghosts[g.name] = Var("ghost_"+g.name, g.sort)
	}
	env := x.rootEnv(st)
	for _, r := range x.con.requires {
		t, err := env.boolean(r.e)
		if err != nil {
			return fmt.Errorf("requires of %s: %v", x.con.name, err)
		}
		x.fact(st, t)
	}
	if !x.isBase {
		for _, r := range x.beh.assumes {
			t, err := env.boolean(r.e)
			if err != nil {
				return fmt.Errorf("assumes of %s: %v", x.con.name, err)
			}
			x.fact(st, t)
		}
	}
	x.uses = append(x.uses, x.con.base.uses...)
	if !x.isBase {
		x.uses = append(x.uses, x.beh.uses...)
	}
	// proof steps at the entry
	eb := x.con.base
	if !x.isBase {
		eb = x.beh
	}
	for _, a := range eb.applies {
		if err := x.applyAt(fr, st, env, a); err != nil {
			return err
		}
	}
	for _, a := range eb.entry {
		t, err := env.boolean(a.e)
		if err != nil {
			return fmt.Errorf("entry step of %s: %v", x.con.name, err)
		}
		x.vc(st, "assert", "entry step: "+a.text, t, fn.Pos())
		x.assume(st, t)
	}
	if !x.isBase && x.beh.follows {
		if !x.con.pure || !x.beh.local {
			return fmt.Errorf("behavior %s of %s: follows wants a pure function and a local behavior", x.beh.name, x.con.name)
		}
		// a consequence of the contract: the results are what the other behaviours say
		var args []Val
		for _, p := range fn.Params {
			args = append(args, fr.regs[p])
		}
		x.ghostCall = True
		res := x.modular(fr, st, fn, x.con, args, nil, fn.Pos())
		x.ghostCall = nil
		vals := res.tuple
		if vals == nil {
			vals = []Val{res}
		}
		fr.rets = append(fr.rets, retEdge{st, vals, x.prog.pos(fn.Pos())})
	} else {
		x.runFunction(fr, st)
	}
	ens := x.con.base.ensures
	if !x.isBase {
		ens = x.beh.ensures
	}
	for i, r := range fr.rets {
		env := x.rootEnv(r.st)
		env.ret = true
		for k, nm := range x.con.results {
			if k < len(r.vals) {
				v := r.vals[k]
				x.ensureNil(&v)
				if v.ty == nil || isSliceT(fn.Signature.Results().At(k).Type()) {
					v.ty = fn.Signature.Results().At(k).Type()
					x.ensureNil(&v)
				}
				env.vars[nm] = v
			}
		}
		// assertions (proof steps) before the postconditions
		bh := x.con.base
		if !x.isBase {
			bh = x.beh
		}
		if bh.derived {
			for _, e := range x.con.base.ensures {
				t, err := env.boolean(e.e)
				if err != nil {
					return fmt.Errorf("ensures of %s: %v", x.con.name, err)
				}
				x.assume(r.st, t)
			}
		}
		for _, a := range bh.asserts {
			if a.apply {
				if err := x.applyAt(fr, r.st, env, a); err != nil {
					return err
				}
				continue
			}
			t, err := env.boolean(a.e)
			if err != nil {
				return fmt.Errorf("assert of %s: %v", x.con.name, err)
			}
			v := x.vc(r.st, "assert", "proof step: "+a.text, t, token.NoPos)
			v.pos = r.pos
			x.assume(r.st, t)
		}
		if x.con.pure && x.isBase && i == 0 {
			// nothing to check here: determinism is established by the purity scan
		}
		for _, e := range ens {
			t, err := env.boolean(e.e)
			if err != nil {
				return fmt.Errorf("ensures of %s: %v", x.con.name, err)
			}
			v := x.vc(r.st, "ensures", e.text, t, token.NoPos)
			v.pos = r.pos
			v.label = e.label
		}
		if x.isBase && x.con.delegates != nil {
			g := Eq(r.st.cells[x.dgCell].t, I(1))
			for k, c := range x.dgRes {
				if v := r.vals[k]; v.t != nil && r.st.cells[c].t != nil && k < len(r.vals) {
					g = And(g, Eq(v.t, r.st.cells[c].t))
				} else {
					g = False
				}
			}
			v := x.vc(r.st, "ensures", "returns what the one call of "+x.con.delegates.s+" on its arguments returns", g, token.NoPos)
			v.pos = r.pos
		}
		if x.isBase {
			x.heapFrame(r, entryRefs)
		}
		// reachability of the return (vacuity guard)
		v := x.vc(r.st, "cover", "return reachable", False, token.NoPos)
		v.pos = r.pos
	}
	return nil
}

// applyAt: the contract of a deterministic function, applied at the entry to arguments that need not occur in the code.
// The function is total where its precondition holds, and its contract is used only there; callCycle rules out circular use.
func (x *Exec) applyAt(fr *Frame, st *State, env *Env, a Clause) error {
	if a.e.k != "call" {
		return fmt.Errorf("apply F(args) wanted in %s", x.con.name)
	}
	fn, con := x.prog.funcs[a.e.s], x.spec.contracts[a.e.s]
	if fn == nil || con == nil || !con.pure || len(a.e.a) != len(fn.Params) || fn == x.root.fn {
		return fmt.Errorf("apply: %s is not a function with a pure contract", a.text)
	}
	var args []Val
	for i, q := range a.e.a {
		v, err := env.val(q)
		if err != nil {
			return fmt.Errorf("apply of %s: %v", x.con.name, err)
		}
		if v.spec == "nil" {
			v = x.zero(fn.Params[i].Type(), token.NoPos)
		}
		args = append(args, v)
	}
	x.ghostCall = True
	x.modular(fr, st, fn, con, args, nil, x.root.fn.Pos())
	x.ghostCall = nil
	return nil
}

// callCycle reports contracts that depend on each other (other than a function on itself): their proofs would be circular.
func callCycle(prog *Program, sp *Spec) string {
	edges := map[string]map[string]bool{}
	for n, con := range sp.contracts {
		es := map[string]bool{}
		edges[n] = es
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := c.Common().StaticCallee()
					if g == nil || g.Pkg != prog.pkg {
						continue
					}
					if k := prog.names[g]; k != "" && sp.contracts[k] != nil && !sp.contracts[k].inline {
						es[k] = true
					} else {
						walk(g)
					}
				}
			}
			for _, g := range f.AnonFuncs {
				walk(g)
			}
		}
		walk(prog.funcs[n])
		for _, b := range append([]*Behavior{con.base}, con.behaviors...) {
			for _, a := range append(append([]Clause{}, b.applies...), b.thens...) {
				if a.e.s == n {
					return n + " applies itself"
				}
				es[a.e.s] = true
			}
		}
	}
	for n := range edges {
		done := map[string]bool{}
		var reach func(m string) bool
		reach = func(m string) bool {
			for k := range edges[m] {
				if k == n && m != n {
					return true
				}
				if !done[k] && k != n {
					done[k] = true
					if reach(k) {
						return true
					}
				}
			}
			return false
		}
		if reach(n) {
			return n
		}
	}
	return ""
}

// heapFrame: fields not listed in modifies keep their values.
func (x *Exec) heapFrame(r retEdge, entryRefs int) {
	mods := map[string][]*Term{}
	for _, m := range x.con.modifies {
		p := strings.SplitN(m, ".", 2)
		if v, ok := x.params[p[0]]; ok {
			k := typeName(deref(v.ty)) + "." + p[1]
			mods[k] = append(mods[k], v.t)
			mods[k+"#nil"] = append(mods[k+"#nil"], v.t)
		}
	}
	var hs []string
	for h := range r.st.heap {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		end, beg := r.st.heap[h], x.entry.heap[h]
		if beg == nil || end == beg {
			continue
		}
		r0 := Fresh("ref", SRef)
		var ex []*Term
		for _, t := range mods[h] {
			ex = append(ex, Eq(r0, t))
		}
		for _, t := range x.newRefs[entryRefs:] {
			ex = append(ex, Eq(r0, t))
		}
		g := Or(append(ex, Eq(Select(end, r0), Select(beg, r0)))...)
		v := x.vc(r.st, "frame", "unlisted objects keep "+h, g, token.NoPos)
		v.pos = r.pos
	}
}
