package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT terms.  Sorts are SMT sort names.
//
// Sequences (Go slices and strings) are mathematical sequences.  One sort per element sort:
//   Seq  elements Int  (bytes, ints)      SeqB elements Bool    SeqS elements Seq (strings)
//   SeqF elements Flt  SeqA elements Any  SeqR elements Ref

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SSeq  Sort = "Byt"
	SSeqB Sort = "SeqB"
	SSeqS Sort = "SeqS"
	SSeqF Sort = "SeqF"
	SSeqA Sort = "SeqA"
	SSeqR Sort = "SeqR"
	SSeqI Sort = "SeqI"
	SRef  Sort = "Ref"
	SErr  Sort = "Err"
	SFlt  Sort = "Flt"
	SAny  Sort = "Any"
	SFn   Sort = "Fn"
	SMap  Sort = "MapT"
	SMapC Sort = "MapC" // the contents of a map[string]string
)

var elemSort = map[Sort]Sort{SSeq: SInt, SSeqB: SBool, SSeqS: SSeq, SSeqF: SFlt, SSeqA: SAny, SSeqR: SRef, SSeqI: SInt}
var seqOf = map[Sort]Sort{SInt: SSeqI, SBool: SSeqB, SSeq: SSeqS, SFlt: SSeqF, SAny: SSeqA, SRef: SSeqR}

func isSeq(s Sort) bool { _, ok := elemSort[s]; return ok }

type Term struct {
	op    string // "int","true","false","var","bvar","app:<f>","and","or","not","=>","=","ite","+","-","*","<","<=","forall","exists","lit","select","store",...
	args  []*Term
	sort  Sort
	i     int64
	name  string
	id    int
	bvars []*Term   // for quantifiers
	trigs [][]*Term // triggers
	// cached: free symbols
	syms map[*Term]bool
	fns  map[string]bool
}

type Ctx struct {
	tab   map[string]*Term
	next  int
	fresh int
	funs  map[string]*FunDecl
	lits  []*Term
}

type FunDecl struct {
	name string
	args []Sort
	ret  Sort
}

var C = &Ctx{tab: map[string]*Term{}, funs: map[string]*FunDecl{}}

func (c *Ctx) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.i, 10))
	sb.WriteByte('|')
	sb.WriteString(t.name)
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.bvars {
		sb.WriteString(";b")
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, tr := range t.trigs {
		sb.WriteString(";t")
		for _, a := range tr {
			sb.WriteByte(':')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.next++
	t.id = c.next
	c.tab[k] = t
	return t
}

func I(n int64) *Term { return C.intern(&Term{op: "int", sort: SInt, i: n}) }

var True = C.intern(&Term{op: "true", sort: SBool})
var False = C.intern(&Term{op: "false", sort: SBool})

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Var(name string, s Sort) *Term { return C.intern(&Term{op: "var", name: name, sort: s}) }
func Bound(name string, s Sort) *Term {
	C.fresh++
	return C.intern(&Term{op: "bvar", name: fmt.Sprintf("%s!%d", name, C.fresh), sort: s})
}
func Fresh(hint string, s Sort) *Term {
	C.fresh++
	hint = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, hint)
	return Var(fmt.Sprintf("%s.%d", hint, C.fresh), s)
}

// Lit is a literal byte string.
func Lit(s string) *Term {
	t := C.intern(&Term{op: "lit", name: s, sort: SSeq})
	return t
}

// List is a sequence given by its elements.
func List(s Sort, es ...*Term) *Term {
	if s == SSeq {
		ok := true
		var b []byte
		for _, e := range es {
			if e.op != "int" || e.i < 0 || e.i > 255 {
				ok = false
				break
			}
			b = append(b, byte(e.i))
		}
		if ok {
			return Lit(string(b))
		}
	}
	return C.intern(&Term{op: "list", args: es, sort: s})
}

func listElems(t *Term) ([]*Term, bool) {
	if t.op == "lit" {
		var r []*Term
		for i := 0; i < len(t.name); i++ {
			r = append(r, I(int64(t.name[i])))
		}
		return r, true
	}
	if t.op == "list" {
		return t.args, true
	}
	return nil, false
}

func Empty(s Sort) *Term { return List(s) }

func App(f string, args ...*Term) *Term {
	d, ok := C.funs[f]
	if !ok {
		panic("undeclared function " + f)
	}
	if len(d.args) != len(args) {
		panic(fmt.Sprintf("function %s: %d args, want %d", f, len(args), len(d.args)))
	}
	for i, a := range args {
		if a.sort != d.args[i] {
			panic(fmt.Sprintf("function %s: arg %d has sort %s, want %s (%s)", f, i, a.sort, d.args[i], a))
		}
	}
	if f == "atoi" && args[0].op == "lit" {
		if n, err := strconv.Atoi(args[0].name); err == nil {
			return I(int64(n))
		}
	}
	if f == "atoiok" && args[0].op == "lit" {
		_, err := strconv.Atoi(args[0].name)
		return B(err == nil)
	}
	return C.intern(&Term{op: "app", name: f, args: args, sort: d.ret})
}

func Declare(name string, ret Sort, args ...Sort) {
	if _, ok := C.funs[name]; ok {
		panic("redeclared " + name)
	}
	C.funs[name] = &FunDecl{name, args, ret}
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return C.intern(&Term{op: "not", args: []*Term{a}, sort: SBool})
}

func And(as ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False {
			return false
		}
		if a == True || seen[a] {
			return true
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		r = append(r, a)
		return true
	}
	for _, a := range as {
		if a.sort != SBool {
			panic("and: not bool: " + a.String())
		}
		if !add(a) {
			return False
		}
	}
	if len(r) == 0 {
		return True
	}
	if len(r) == 1 {
		return r[0]
	}
	return C.intern(&Term{op: "and", args: r, sort: SBool})
}

func Or(as ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True {
			return false
		}
		if a == False || seen[a] {
			return true
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		r = append(r, a)
		return true
	}
	for _, a := range as {
		if a.sort != SBool {
			panic("or: not bool: " + a.String())
		}
		if !add(a) {
			return True
		}
	}
	if len(r) == 0 {
		return False
	}
	if len(r) == 1 {
		return r[0]
	}
	return C.intern(&Term{op: "or", args: r, sort: SBool})
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return C.intern(&Term{op: "=>", args: []*Term{a, b}, sort: SBool})
}

func isConst(t *Term) bool {
	switch t.op {
	case "int", "true", "false", "lit":
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("= on sorts %s and %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a == b {
		return True
	}
	if isConst(a) && isConst(b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.op == "ite" && isConst(b) {
		return Or(And(a.args[0], Eq(a.args[1], b)), And(Not(a.args[0]), Eq(a.args[2], b)))
	}
	if b.op == "ite" && isConst(a) {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return C.intern(&Term{op: "=", args: []*Term{a, b}, sort: SBool})
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("ite sorts: " + a.String() + " / " + b.String())
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return C.intern(&Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort})
}

// linear normal form: sum of coeff*term + const
type lin struct {
	m map[*Term]int64
	k int64
}

func toLin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{map[*Term]int64{}, t.i}
	case "+":
		r := lin{map[*Term]int64{}, t.i}
		for _, a := range t.args {
			l := toLin(a)
			r.k += l.k
			for x, c := range l.m {
				r.m[x] += c
			}
		}
		return r
	case "*":
		// constant * term
		if t.args[0].op == "int" {
			l := toLin(t.args[1])
			r := lin{map[*Term]int64{}, l.k * t.args[0].i}
			for x, c := range l.m {
				r.m[x] = c * t.args[0].i
			}
			return r
		}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func fromLin(l lin) *Term {
	var ts []*Term
	for x, c := range l.m {
		if c == 0 {
			continue
		}
		if c == 1 {
			ts = append(ts, x)
		} else {
			ts = append(ts, C.intern(&Term{op: "*", args: []*Term{I(c), x}, sort: SInt}))
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 0 {
		return I(l.k)
	}
	if l.k != 0 {
		ts = append(ts, I(l.k))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return C.intern(&Term{op: "+", args: ts, sort: SInt})
}

func Add(a, b *Term) *Term {
	la, lb := toLin(a), toLin(b)
	for x, c := range lb.m {
		la.m[x] += c
	}
	la.k += lb.k
	return fromLin(la)
}
func Scale(c int64, a *Term) *Term {
	la := toLin(a)
	for x := range la.m {
		la.m[x] *= c
	}
	la.k *= c
	return fromLin(la)
}
func Sub(a, b *Term) *Term { return Add(a, Scale(-1, b)) }
func Mul(a, b *Term) *Term {
	if a.op == "int" {
		return Scale(a.i, b)
	}
	if b.op == "int" {
		return Scale(b.i, a)
	}
	return C.intern(&Term{op: "*", args: []*Term{a, b}, sort: SInt})
}
func Le(a, b *Term) *Term {
	if a.sort != SInt || b.sort != SInt {
		panic("<= on " + a.String() + " , " + b.String())
	}
	d := Sub(b, a)
	if d.op == "int" {
		return B(d.i >= 0)
	}
	return C.intern(&Term{op: "<=", args: []*Term{a, b}, sort: SBool})
}
func Lt(a, b *Term) *Term {
	if a.sort != SInt || b.sort != SInt {
		panic("< on " + a.String() + " , " + b.String())
	}
	d := Sub(b, a)
	if d.op == "int" {
		return B(d.i > 0)
	}
	return C.intern(&Term{op: "<", args: []*Term{a, b}, sort: SBool})
}

// Euclidean div/mod as in SMT-LIB
func Mod(a *Term, n int64) *Term {
	if a.op == "int" {
		r := a.i % n
		if r < 0 {
			r += n
		}
		return I(r)
	}
	return C.intern(&Term{op: "mod", args: []*Term{a, I(n)}, sort: SInt})
}
func DivT(a *Term, n int64) *Term {
	return C.intern(&Term{op: "div", args: []*Term{a, I(n)}, sort: SInt})
}

func Select(a, i *Term) *Term {
	es := arrElem(a.sort)
	if a.op == "store" {
		e := Eq(a.args[1], i)
		if e == True {
			return a.args[2]
		}
		if e == False {
			return Select(a.args[0], i)
		}
	}
	return C.intern(&Term{op: "select", args: []*Term{a, i}, sort: es})
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	return C.intern(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}
func ArrSort(idx, el Sort) Sort { return Sort(fmt.Sprintf("(Array %s %s)", idx, el)) }
func arrElem(s Sort) Sort {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("select on non-array " + str)
	}
	str = strings.TrimSuffix(strings.TrimPrefix(str, "(Array "), ")")
	f := strings.Fields(str)
	return Sort(f[len(f)-1])
}

func Forall(bv []*Term, trigs [][]*Term, body *Term) *Term {
	if body == True || len(bv) == 0 {
		return body
	}
	return C.intern(&Term{op: "forall", args: []*Term{body}, sort: SBool, bvars: bv, trigs: trigs})
}
func Exists(bv []*Term, body *Term) *Term {
	return Not(Forall(bv, nil, Not(body)))
}

// --- sequences -------------------------------------------------------------

func SeqLen(s *Term) *Term {
	if es, ok := listElems(s); ok {
		return I(int64(len(es)))
	}
	switch s.op {
	case "cat":
		r := I(0)
		for _, a := range s.args {
			r = Add(r, SeqLen(a))
		}
		return r
	case "upd":
		return SeqLen(s.args[0])
	case "zeros":
		if s.args[0].op == "int" && s.args[0].i >= 0 {
			return s.args[0]
		}
	}
	if !isSeq(s.sort) {
		panic("len of " + s.String())
	}
	return C.intern(&Term{op: "len", args: []*Term{s}, sort: SInt})
}

func SeqAt(s, i *Term) *Term {
	if es, ok := listElems(s); ok && i.op == "int" && i.i >= 0 && i.i < int64(len(es)) {
		return es[i.i]
	}
	if s.op == "upd" && i.op == "int" && s.args[1].op == "int" && i.i != s.args[1].i {
		n := SeqLen(s)
		if n.op == "int" && i.i >= 0 && i.i < n.i {
			return SeqAt(s.args[0], i)
		}
	}
	if s.op == "upd" {
		// out-of-range reads denote the default element in the intended model, so this holds for every i
		j := s.args[1]
		return Ite(And(Eq(j, i), Le(I(0), j), Lt(j, SeqLen(s))), s.args[2], SeqAt(s.args[0], i))
	}
	if s.op == "zeros" {
		return ZeroOf(elemSort[s.sort])
	}
	if s.op == "cat" && i.op == "int" && i.i >= 0 {
		k := i.i
		for _, a := range s.args {
			n := SeqLen(a)
			if n.op != "int" {
				break
			}
			if k < n.i {
				return SeqAt(a, I(k))
			}
			k -= n.i
		}
	}
	es, ok := elemSort[s.sort]
	if !ok {
		panic("index of " + s.String())
	}
	return C.intern(&Term{op: "at", args: []*Term{s, i}, sort: es})
}

func SeqSub(s, i, j *Term) *Term {
	if !isSeq(s.sort) {
		panic("slice of " + s.String())
	}
	if i.op == "int" && i.i == 0 && j == SeqLen(s) {
		return s
	}
	if es, ok := listElems(s); ok && i.op == "int" && j.op == "int" && 0 <= i.i && i.i <= j.i && j.i <= int64(len(es)) {
		return List(s.sort, es[i.i:j.i]...)
	}
	if i.op == "int" && j == i && i.i == 0 {
		return Empty(s.sort)
	}
	// drop a constant suffix of a concatenation:  sub(cat(..., list), 0, len-k)
	if s.op == "cat" && i.op == "int" && i.i == 0 {
		last := s.args[len(s.args)-1]
		if es, ok := listElems(last); ok {
			d := Sub(SeqLen(s), j)
			if d.op == "int" && d.i >= 0 && d.i <= int64(len(es)) {
				rest := append([]*Term{}, s.args[:len(s.args)-1]...)
				rest = append(rest, List(s.sort, es[:int64(len(es))-d.i]...))
				return Cat(s.sort, rest...)
			}
		}
	}
	return C.intern(&Term{op: "sub", args: []*Term{s, i, j}, sort: s.sort})
}

func Cat(s Sort, as ...*Term) *Term {
	var r []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.sort != s {
			panic("cat sorts: " + a.String())
		}
		if a.op == "cat" {
			for _, x := range a.args {
				add(x)
			}
			return
		}
		es, ok := listElems(a)
		if ok && len(es) == 0 {
			return
		}
		if ok && len(r) > 0 {
			if ps, ok2 := listElems(r[len(r)-1]); ok2 && len(ps)+len(es) <= 64 {
				r[len(r)-1] = List(s, append(append([]*Term{}, ps...), es...)...)
				return
			}
		}
		r = append(r, a)
	}
	for _, a := range as {
		add(a)
	}
	if len(r) == 0 {
		return Empty(s)
	}
	if len(r) == 1 {
		return r[0]
	}
	return C.intern(&Term{op: "cat", args: r, sort: s})
}

func SeqUpd(s, i, v *Term) *Term {
	if es, ok := listElems(s); ok && i.op == "int" && i.i >= 0 && i.i < int64(len(es)) {
		n := append([]*Term{}, es...)
		n[i.i] = v
		return List(s.sort, n...)
	}
	if v.sort != elemSort[s.sort] {
		panic("upd sorts")
	}
	if i.op == "int" && s.op == "upd" && s.args[1].op == "int" {
		// canonical order for constant indices
		j := s.args[1].i
		if j == i.i {
			return SeqUpd(s.args[0], i, v)
		}
		if j > i.i {
			return SeqUpd(SeqUpd(s.args[0], i, v), s.args[1], s.args[2])
		}
	}
	return C.intern(&Term{op: "upd", args: []*Term{s, i, v}, sort: s.sort})
}

func ZeroOf(s Sort) *Term {
	switch s {
	case SInt:
		return I(0)
	case SBool:
		return False
	case SErr:
		return Var("errnil", SErr)
	case SRef:
		return Var("refnil", SRef)
	case SFlt:
		return Var("fltzero", SFlt)
	case SAny:
		return Var("anynil", SAny)
	case SFn:
		return Var("fnnil", SFn)
	case SMap:
		return Var("mapnil", SMap)
	case SMapC:
		return Var("mapcnil", SMapC)
	}
	if isSeq(s) {
		return Empty(s)
	}
	panic("zero of " + string(s))
}

func Zeros(s Sort, n *Term) *Term {
	if n.op == "int" && n.i >= 0 && n.i <= 32 {
		var es []*Term
		for k := int64(0); k < n.i; k++ {
			es = append(es, ZeroOf(elemSort[s]))
		}
		return List(s, es...)
	}
	return C.intern(&Term{op: "zeros", args: []*Term{n}, sort: s})
}

// --- printing --------------------------------------------------------------

func mangle(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$%&*+-/<=>?@^~", r)) {
			return "|" + n + "|"
		}
	}
	return n
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

func litName(t *Term) string {
	if t.name == "" {
		return "empty_Byt"
	}
	return fmt.Sprintf("lit_%x", t.name)
}

func (t *Term) write(sb *strings.Builder) {
	switch t.op {
	case "int":
		if t.i < 0 {
			fmt.Fprintf(sb, "(- %d)", -t.i)
		} else {
			fmt.Fprintf(sb, "%d", t.i)
		}
		return
	case "true", "false":
		sb.WriteString(t.op)
		return
	case "var", "bvar":
		sb.WriteString(mangle(t.name))
		return
	case "lit":
		sb.WriteString(litName(t))
		return
	case "list":
		if len(t.args) == 0 {
			sb.WriteString("empty_" + string(t.sort))
			return
		}
		for i, a := range t.args {
			if i+1 < len(t.args) {
				sb.WriteString("(cat_" + string(t.sort) + " ")
			}
			sb.WriteString("(unit_" + string(t.sort) + " ")
			a.write(sb)
			sb.WriteString(")")
			if i+1 < len(t.args) {
				sb.WriteString(" ")
			}
		}
		sb.WriteString(strings.Repeat(")", len(t.args)-1))
		return
	case "cat":
		for i, a := range t.args {
			if i+1 < len(t.args) {
				sb.WriteString("(cat_" + string(t.sort) + " ")
			}
			a.write(sb)
			if i+1 < len(t.args) {
				sb.WriteString(" ")
			}
		}
		sb.WriteString(strings.Repeat(")", len(t.args)-1))
		return
	case "forall":
		sb.WriteString("(forall (")
		for _, b := range t.bvars {
			fmt.Fprintf(sb, "(%s %s)", mangle(b.name), b.sort)
		}
		sb.WriteString(") ")
		if len(t.trigs) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb)
		for _, tr := range t.trigs {
			sb.WriteString(" :pattern (")
			for k, x := range tr {
				if k > 0 {
					sb.WriteString(" ")
				}
				x.write(sb)
			}
			sb.WriteString(")")
		}
		if len(t.trigs) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	op := t.op
	switch op {
	case "app":
		op = mangle(t.name)
		if len(t.args) == 0 {
			sb.WriteString(op)
			return
		}
	case "len", "at", "sub", "upd":
		op = op + "_" + string(t.args[0].sort)
	case "zeros":
		op = "zeros_" + string(t.sort)
	}
	sb.WriteString("(")
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteString(" ")
		a.write(sb)
	}
	sb.WriteString(")")
}

// free constant symbols and function names used
func (t *Term) symbols() map[*Term]bool {
	if t.syms != nil {
		return t.syms
	}
	m := map[*Term]bool{}
	if t.op == "var" || t.op == "lit" {
		m[t] = true
	}
	for _, a := range t.args {
		for x := range a.symbols() {
			m[x] = true
		}
	}
	for _, tr := range t.trigs {
		for _, a := range tr {
			for x := range a.symbols() {
				m[x] = true
			}
		}
	}
	t.syms = m
	return m
}

func (t *Term) functions() map[string]bool {
	if t.fns != nil {
		return t.fns
	}
	m := map[string]bool{}
	if t.op == "app" {
		m[t.name] = true
	}
	for _, a := range t.args {
		for x := range a.functions() {
			m[x] = true
		}
	}
	t.fns = m
	return m
}

// subst replaces variables (bound or free) by terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		var trigs [][]*Term
		for _, tr := range t.trigs {
			var nt []*Term
			for _, a := range tr {
				x := rec(a)
				if x != a {
					ch = true
				}
				nt = append(nt, x)
			}
			trigs = append(trigs, nt)
		}
		r := t
		if ch {
			r = rebuild(t, args, trigs)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term, trigs [][]*Term) *Term {
	switch t.op {
	case "app":
		return App(t.name, a...)
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case "*":
		return Mul(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1].i)
	case "div":
		return DivT(a[0], a[1].i)
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "len":
		return SeqLen(a[0])
	case "at":
		return SeqAt(a[0], a[1])
	case "sub":
		return SeqSub(a[0], a[1], a[2])
	case "cat":
		return Cat(t.sort, a...)
	case "list":
		return List(t.sort, a...)
	case "upd":
		return SeqUpd(a[0], a[1], a[2])
	case "zeros":
		return Zeros(t.sort, a[0])
	case "forall":
		return Forall(t.bvars, trigs, a[0])
	}
	panic("rebuild " + t.op)
}

// seqEqs collects the (top level, unquantified) sequence equalities of t.
// pathArgs collects, per function and position, the string-list arguments outside quantifiers.
func pathArgs(t *Term, seen map[*Term]bool, out map[string][]*Term) {
	if seen[t] || t.op == "forall" {
		return
	}
	seen[t] = true
	if t.op == "app" {
		for i, a := range t.args {
			if a.sort == SSeqS {
				k := fmt.Sprintf("%s/%d", t.name, i)
				has := false
				for _, b := range out[k] {
					has = has || a == b
				}
				if !has {
					out[k] = append(out[k], a)
				}
			}
		}
	}
	for _, a := range t.args {
		pathArgs(a, seen, out)
	}
}

func seqEqs(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "forall" {
		return
	}
	if t.op == "=" && isSeq(t.args[0].sort) {
		out[t] = true
	}
	for _, a := range t.args {
		seqEqs(a, seen, out)
	}
}
