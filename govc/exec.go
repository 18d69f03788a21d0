package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values and state -----------------------------------------------------

type Cell struct {
	name string
	ty   types.Type
	id   int
	fr   *Frame
	al   *ssa.Alloc
}

type AddrKind int

const (
	ACell AddrKind = iota
	AField
	AElem
)

type Addr struct {
	kind AddrKind
	cell *Cell
	ref  *Term
	fld  string
	fty  types.Type
	base *Val
	idx  *Term
}

type Closure struct {
	fn       *ssa.Function
	bindings []Val
}

type Val struct {
	t     *Term
	ty    types.Type
	nilp  *Term
	frsh  *Term
	fam   int
	ver   int
	mver  int
	cap   *Term
	home  *Addr
	off   *Term
	tuple []Val
	addr  *Addr
	clo   *Closure
	boxed *Val
	spec  string
}

type verPair struct{ v, m int }

type State struct {
	node  *Node
	cells map[*Cell]Val
	heap  map[string]*Term
	vers  map[int]verPair
}

func (s *State) clone() *State {
	n := &State{node: s.node, cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), vers: make(map[int]verPair, len(s.vers))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.vers {
		n.vers[k] = v
	}
	return n
}

type Node struct {
	id    int
	preds []*Node
	facts []*Term
	pc    *Term
	anc   []uint64
	conds []*Term // one per predecessor of a merge
	loop  bool    // a loop head
}

type Edge struct {
	st   *State
	cond *Term
	from *ssa.BasicBlock
}

type VC struct {
	name   string
	kind   string // ensures safety frame inv-init inv-keep term requires assert lemma unsupported
	node   *Node
	nfacts int
	goal   *Term
	pos    string
	cand   *Cand
	label  string
	extra  []*Term
	uses   []string
	text   string
	// result
	status string
	solver string
	ms     int64
	mgroup *Measure
}

type Cand struct {
	key     string
	en      *Term
	text    string
	auto    bool
	dropped bool
	beh     string
	given   bool // proved in the base pass: assume only
}

type Measure struct {
	alts  [][]*VC
	loop  string
	cands []*Cand
	pos   string
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	cells  map[*ssa.Alloc]*Cell
	parent *Frame
	depth  int
	path   string
	free   []Val
	rets   []retEdge
	args   []Val
}

type retEdge struct {
	st   *State
	vals []Val
	pos  string
}

type Exec struct {
	hinted, aborted bool
	wide    bool // also try contract invariants with other variables in the place of missing ones
	widened int
	known   map[string]bool
	ghostCall *Term // while a contract is applied without a call: its precondition
	prog    *Program
	spec    *Spec
	con     *Contract
	beh     *Behavior
	isBase  bool
	root    *Frame
	entry   *State
	nodes   []*Node
	vcs     []*VC
	cands   map[string]*Cand
	candL   []*Cand
	meas    []*Measure
	params  map[string]Val
	ghosts  map[string]*Term
	rec     []*writeRec
	fams    []int // union-find
	famCh   int
	inlined map[string]bool
	called  map[string]bool
	extern  map[string]bool
	ncell   int
	given   map[string]bool // candidates proved in the base pass
	err     error
	newRefs []*Term
	loopSeq map[string]int
	steps   int
	dropped map[string]bool // candidate keys disabled up front
	staleAt map[string]map[string]bool
	uses    []string
	loopFam map[*Cell]int
	entryRefs int
	cbCells map[string]*Cell
	iterCell *Cell
	dgCell  *Cell   // calls that may be the delegates clause: 0 none yet, 1 exactly that one, 2 another
	dgRes   []*Cell // their results
	tabForm map[*Cell]map[int64]bool
	tabFull map[*Cell]bool
}

type writeRec struct {
	cells map[*Cell]bool
	heap  map[string]bool
	fams  map[int]bool
}

type unsupported struct{ msg, pos string }

func (x *Exec) unsup(pos token.Pos, f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...), x.prog.pos(pos)})
}

func (x *Exec) newNode(preds ...*Node) *Node {
	n := &Node{id: len(x.nodes), preds: preds}
	x.nodes = append(x.nodes, n)
	return n
}

func (n *Node) ancestors(all []*Node) []uint64 {
	if n.anc != nil {
		return n.anc
	}
	w := (len(all) + 63) / 64
	b := make([]uint64, w)
	for _, p := range n.preds {
		pb := p.ancestors(all)
		for i := range pb {
			b[i] |= pb[i]
		}
	}
	b[n.id/64] |= 1 << uint(n.id%64)
	n.anc = b
	return b
}

func (x *Exec) find(f int) int {
	for x.fams[f] != f {
		f = x.fams[f]
	}
	return f
}
func (x *Exec) union(a, b int) int {
	a, b = x.find(a), x.find(b)
	if a != b {
		if a > b {
			a, b = b, a
		}
		x.fams[b] = a
		x.famCh++
	}
	return a
}
func (x *Exec) newFam(st *State) int {
	f := len(x.fams)
	x.fams = append(x.fams, f)
	st.vers[f] = verPair{0, 0}
	return f
}
func (x *Exec) curVer(st *State, fam int) verPair {
	// version of a family: the maximum over its united members
	r := x.find(fam)
	var m verPair
	for f, v := range st.vers {
		if x.find(f) == r {
			if v.v > m.v {
				m.v = v.v
			}
			if v.m > m.m {
				m.m = v.m
			}
		}
	}
	return m
}
func (x *Exec) bump(st *State, fam int, mut bool) verPair {
	v := x.curVer(st, fam)
	v.v++
	if mut {
		v.m++
	}
	st.vers[x.find(fam)] = v
	for _, r := range x.rec {
		r.fams[x.find(fam)] = true
	}
	return v
}
func (x *Exec) current(st *State, v Val) bool {
	if v.fam == 0 {
		return false
	}
	c := x.curVer(st, v.fam)
	return v.ver == c.v && v.mver == c.m
}
func (x *Exec) readable(st *State, v Val) bool {
	if v.fam == 0 {
		return true
	}
	return v.mver == x.curVer(st, v.fam).m
}

// assume adds a fact at the state's node.
func (x *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	st.node.facts = append(st.node.facts, Implies(st.node.pc, t))
}
func (x *Exec) fact(st *State, t *Term) { // unconditional truth
	if t == True {
		return
	}
	st.node.facts = append(st.node.facts, t)
}

func (x *Exec) vc(st *State, kind, name string, goal *Term, pos token.Pos) *VC {
	v := &VC{name: name, kind: kind, node: st.node, nfacts: len(st.node.facts), goal: Implies(st.node.pc, goal), pos: x.prog.pos(pos)}
	if goal == True {
		v.status = "trivial"
	}
	x.vcs = append(x.vcs, v)
	return v
}

// check: obligation, then assume it.
func (x *Exec) check(st *State, kind, name string, goal *Term, pos token.Pos) {
	if st.node.pc == False {
		return
	}
	if x.isBase {
		x.vc(st, kind, name, goal, pos)
	}
	x.assume(st, goal)
}

// ---- sorts of Go types ----------------------------------------------------

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func goSort(t types.Type) (Sort, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsString != 0:
			return SSeq, true
		case u.Info()&types.IsFloat != 0:
			return SFlt, true
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return SRef, true
		}
	case *types.Slice:
		return seqSort(u.Elem())
	case *types.Array:
		return seqSort(u.Elem())
	case *types.Pointer:
		return SRef, true
	case *types.Interface:
		if t.String() == "error" {
			return SErr, true
		}
		return SAny, true
	case *types.Signature:
		return SFn, true
	case *types.Map:
		return SMap, true
	}
	return "", false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func seqSort(el types.Type) (Sort, bool) {
	if isByte(el) {
		return SSeq, true
	}
	s, ok := goSort(el)
	if !ok {
		return "", false
	}
	if s == SInt {
		return SSeqI, true
	}
	q, ok := seqOf[s]
	return q, ok
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isStructT(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return strings.ReplaceAll(t.String(), " ", "")
}

func (x *Exec) zero(t types.Type, pos token.Pos) Val {
	s, ok := goSort(t)
	if !ok {
		x.unsup(pos, "zero value of %s", t)
	}
	v := Val{ty: t}
	if a, ok := t.Underlying().(*types.Array); ok {
		v.t = Zeros(s, I(a.Len()))
		return v
	}
	v.t = ZeroOf(s)
	if isSliceT(t) {
		v.nilp = True
		v.frsh = False
	}
	return v
}

// fresh symbolic value of a type, with its type facts assumed.
func (x *Exec) symbol(st *State, hint string, t types.Type, pos token.Pos) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{ty: t}
		for i := 0; i < tp.Len(); i++ {
			v.tuple = append(v.tuple, x.symbol(st, fmt.Sprintf("%s.%d", hint, i), tp.At(i).Type(), pos))
		}
		return v
	}
	s, ok := goSort(t)
	if !ok {
		x.unsup(pos, "symbolic value of %s", t)
	}
	v := Val{ty: t, t: Fresh(hint, s)}
	if isSliceT(t) {
		v.nilp = Fresh(hint+".nil", SBool)
		v.frsh = False
		x.fact(st, Implies(v.nilp, Eq(v.t, Empty(s))))
	}
	x.typeFacts(st, v)
	return v
}

func (x *Exec) typeFacts(st *State, v Val) {
	b, ok := v.ty.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		x.fact(st, And(Le(I(0), v.t), Le(v.t, I(255))))
	case types.Uint, types.Uint32, types.Uint64, types.Uint16, types.Uintptr:
		x.fact(st, Le(I(0), v.t))
	}
}

func (x *Exec) ensureNil(v *Val) {
	if v.ty != nil && isSliceT(v.ty) {
		if v.nilp == nil {
			v.nilp = False
		}
		if v.frsh == nil {
			v.frsh = False
		}
	}
}

// ---- merging --------------------------------------------------------------

func (x *Exec) merge(hint string, es []Edge) *State {
	var live []Edge
	for _, e := range es {
		if And(e.st.node.pc, e.cond) != False {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		e := live[0]
		st := e.st.clone()
		n := x.newNode(e.st.node)
		pc := And(e.st.node.pc, e.cond)
		if pc.op != "var" && pc != True {
			v := Fresh("pc_"+hint, SBool)
			n.facts = append(n.facts, Eq(v, pc))
			pc = v
		}
		n.pc = pc
		st.node = n
		return st
	}
	n := x.newNode()
	var conds []*Term
	for _, e := range live {
		n.preds = append(n.preds, e.st.node)
		c := And(e.st.node.pc, e.cond)
		if c.op != "var" {
			v := Fresh("ed_"+hint, SBool)
			n.facts = append(n.facts, Eq(v, c))
			c = v
		}
		conds = append(conds, c)
	}
	n.conds = conds
	pc := Fresh("pc_"+hint, SBool)
	n.facts = append(n.facts, Eq(pc, Or(conds...)))
	n.pc = pc
	out := &State{node: n, cells: map[*Cell]Val{}, heap: map[string]*Term{}, vers: map[int]verPair{}}
	// versions
	same := map[int]bool{}
	for _, e := range live {
		for f, v := range e.st.vers {
			o, ok := out.vers[f]
			if !ok || v.v > o.v {
				o.v = v.v
			}
			if !ok || v.m > o.m {
				o.m = v.m
			}
			out.vers[f] = o
		}
	}
	for f, v := range out.vers {
		same[f] = true
		for _, e := range live {
			if o, ok := e.st.vers[f]; ok && o != v {
				same[f] = false
			}
		}
		if !same[f] {
			out.vers[f] = verPair{v.v + 1, v.m}
		}
	}
	// cells, in a deterministic order
	var cs []*Cell
	for c := range live[0].st.cells {
		ok := true
		for _, e := range live[1:] {
			if _, has := e.st.cells[c]; !has {
				ok = false
				break
			}
		}
		if ok {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		var vs []Val
		for _, e := range live {
			vs = append(vs, e.st.cells[c])
		}
		out.cells[c] = x.mergeVals(out, c.name, live, conds, vs)
	}
	hs := map[string]bool{}
	for _, e := range live {
		for h := range e.st.heap {
			hs[h] = true
		}
	}
	var hl []string
	for h := range hs {
		hl = append(hl, h)
	}
	sort.Strings(hl)
	for _, h := range hl {
		var ts []*Term
		for _, e := range live {
			t := e.st.heap[h]
			if t == nil {
				t = x.entry.heap[h]
			}
			if t == nil {
				panic("heap merge " + h)
			}
			ts = append(ts, t)
		}
		out.heap[h] = x.mergeTerms(n, h, conds, ts)
	}
	return out
}

func (x *Exec) mergeTerms(n *Node, hint string, conds []*Term, ts []*Term) *Term {
	same := true
	for _, t := range ts {
		if t != ts[0] {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	if ts[0].sort == SSeqB {
		base, _ := stripUpd(ts[0])
		ks := map[int64]bool{}
		ok := true
		for _, t := range ts {
			b, k := stripUpd(t)
			if b != base {
				ok = false
			}
			for q := range k {
				ks[q] = true
			}
		}
		if ok {
			var kl []int64
			for k := range ks {
				kl = append(kl, k)
			}
			sort.Slice(kl, func(i, j int) bool { return kl[i] < kl[j] })
			r := base
			for _, k := range kl {
				var es []*Term
				for _, t := range ts {
					es = append(es, SeqAt(t, I(k)))
				}
				r = SeqUpd(r, I(k), x.mergeTerms(n, hint, conds, es))
			}
			return r
		}
	}
	m := Fresh("m_"+hint, ts[0].sort)
	for i, t := range ts {
		n.facts = append(n.facts, Implies(conds[i], Eq(m, t)))
	}
	return m
}

func (x *Exec) mergeVals(st *State, hint string, es []Edge, conds []*Term, vs []Val) Val {
	n := st.node
	v := vs[0]
	r := Val{ty: v.ty}
	if v.tuple != nil {
		for i := range v.tuple {
			var ws []Val
			for _, w := range vs {
				ws = append(ws, w.tuple[i])
			}
			r.tuple = append(r.tuple, x.mergeVals(st, hint, es, conds, ws))
		}
		return r
	}
	same := true
	for _, w := range vs {
		if w.t != v.t || w.nilp != v.nilp || w.frsh != v.frsh || w.fam != v.fam || w.ver != v.ver || w.mver != v.mver || w.addr != v.addr || w.clo != v.clo || w.cap != v.cap {
			same = false
		}
	}
	if same {
		return v
	}
	if v.t == nil {
		return Val{ty: v.ty, spec: "unmergeable"}
	}
	ts := func(f func(Val) *Term, def *Term) []*Term {
		var r []*Term
		for _, w := range vs {
			t := f(w)
			if t == nil {
				t = def
			}
			r = append(r, t)
		}
		return r
	}
	r.t = x.mergeTerms(n, hint, conds, ts(func(v Val) *Term { return v.t }, nil))
	if v.nilp != nil || isSliceT(v.ty) {
		r.nilp = x.mergeTerms(n, hint+".nil", conds, ts(func(v Val) *Term { return v.nilp }, False))
		r.frsh = x.mergeTerms(n, hint+".fresh", conds, ts(func(v Val) *Term { return v.frsh }, False))
		caps := true
		for _, w := range vs {
			if w.cap == nil {
				caps = false
			}
		}
		if caps {
			r.cap = x.mergeTerms(n, hint+".cap", conds, ts(func(v Val) *Term { return v.cap }, nil))
		}
		fam := 0
		cur := true
		rd := true
		for i, w := range vs {
			if w.fam != 0 {
				if fam == 0 {
					fam = w.fam
				} else {
					fam = x.union(fam, w.fam)
				}
				if !x.current(es[i].st, w) {
					cur = false
				}
				if !x.readable(es[i].st, w) {
					rd = false
				}
			}
		}
		r.fam = fam
		if fam != 0 {
			c := x.curVer(st, fam)
			r.ver, r.mver = c.v, c.m
			if !cur {
				r.ver = -1
			}
			if !rd {
				r.mver = -1
			}
		}
	}
	return r
}

// ---- region execution -----------------------------------------------------

func (x *Exec) runFunction(fr *Frame, st *State) {
	fi := infoOf(fr.fn)
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		region[b] = true
	}
	x.runRegion(fr, region, fr.fn.Blocks[0], []Edge{{st, True, nil}}, nil)
}

func (x *Exec) runRegion(fr *Frame, region map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, in []Edge, cur *Loop) (exits map[*ssa.BasicBlock][]Edge, backs []Edge) {
	fi := infoOf(fr.fn)
	exits = map[*ssa.BasicBlock][]Edge{}
	pending := map[*ssa.BasicBlock][]Edge{start: in}
	route := func(to *ssa.BasicBlock, e Edge) {
		if cur != nil && to == start {
			backs = append(backs, e)
		} else if region[to] {
			pending[to] = append(pending[to], e)
		} else {
			exits[to] = append(exits[to], e)
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		if !region[b] || done[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if l := fi.byHead[b]; l != nil && l != cur {
			for q := range l.blocks {
				done[q] = true
			}
			ex := x.runLoop(fr, l, es)
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
			for _, to := range tos {
				for _, e := range ex[to] {
					route(to, e)
				}
			}
			continue
		}
		var st *State
		if len(es) == 1 && es[0].from == nil {
			st = es[0].st
		} else {
			st = x.mergeBlock(fr, b, es)
		}
		if st == nil {
			continue
		}
		for _, e := range x.execBlock(fr, b, st) {
			route(e.to, Edge{e.st, e.cond, b})
		}
	}
	return
}

// mergeBlock joins the incoming edges and evaluates the phis of the block.
func (x *Exec) mergeBlock(fr *Frame, b *ssa.BasicBlock, es []Edge) *State {
	var live []Edge
	for _, e := range es {
		if And(e.st.node.pc, e.cond) != False {
			live = append(live, e)
		}
	}
	// phi operands as pseudo cells
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if len(phis) > 0 {
		pc := make([]*Cell, len(phis))
		for i, p := range phis {
			x.ncell++
			pc[i] = &Cell{name: "phi", ty: p.Type(), id: x.ncell}
		}
		for k := range live {
			st := live[k].st.clone()
			live[k].st = st
			idx := -1
			for j, p := range b.Preds {
				if p == live[k].from {
					idx = j
				}
			}
			for i, p := range phis {
				st.cells[pc[i]] = x.value(fr, st, p.Edges[idx])
			}
		}
		st := x.merge(fmt.Sprintf("b%d", b.Index), live)
		if st == nil {
			return nil
		}
		for i, p := range phis {
			fr.regs[p] = st.cells[pc[i]]
			delete(st.cells, pc[i])
		}
		return st
	}
	return x.merge(fmt.Sprintf("b%d", b.Index), live)
}

type outEdge struct {
	to   *ssa.BasicBlock
	st   *State
	cond *Term
}

func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []outEdge {
	for _, in := range b.Instrs {
		x.steps++
		if x.steps > 400000 {
			x.unsup(in.Pos(), "too many steps")
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.value(fr, st, in.Cond).t
			if c == nil {
				x.unsup(in.Pos(), "branch condition")
			}
			var r []outEdge
			if c != False {
				r = append(r, outEdge{b.Succs[0], st, c})
			}
			if c != True {
				r = append(r, outEdge{b.Succs[1], st, Not(c)})
			}
			return r
		case *ssa.Jump:
			return []outEdge{{b.Succs[0], st, True}}
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, x.value(fr, st, r))
			}
			fr.rets = append(fr.rets, retEdge{st, vs, x.prog.pos(in.Pos())})
			return nil
		case *ssa.Panic:
			x.check(st, "safety", "explicit panic unreachable", False, in.Pos())
			return nil
		default:
			x.instr(fr, st, in)
		}
	}
	return nil
}

// ---- loops ----------------------------------------------------------------

type checkpoint struct {
	nodes, vcs, meas int
	nfacts           []int
	fresh            int
	ncell            int
	rets             int
	newRefs          int
}

func (x *Exec) mark(fr *Frame) checkpoint {
	c := checkpoint{nodes: len(x.nodes), vcs: len(x.vcs), meas: len(x.meas), fresh: C.fresh, ncell: x.ncell, rets: len(fr.rets), newRefs: len(x.newRefs)}
	for _, n := range x.nodes {
		c.nfacts = append(c.nfacts, len(n.facts))
	}
	return c
}
func (x *Exec) restore(fr *Frame, c checkpoint) {
	x.nodes = x.nodes[:c.nodes]
	x.vcs = x.vcs[:c.vcs]
	x.meas = x.meas[:c.meas]
	fr.rets = fr.rets[:c.rets]
	x.newRefs = x.newRefs[:c.newRefs]
	for i, n := range x.nodes {
		n.facts = n.facts[:c.nfacts[i]]
	}
}

func (x *Exec) wroteCell(c *Cell) {
	for _, r := range x.rec {
		r.cells[c] = true
	}
}
func (x *Exec) wroteHeap(h string) {
	for _, r := range x.rec {
		r.heap[h] = true
	}
}

func (x *Exec) staticWrites(fr *Frame, l *Loop, st *State) *writeRec {
	w := &writeRec{map[*Cell]bool{}, map[string]bool{}, map[int]bool{}}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.Alloc); ok {
					if c := fr.cells[a]; c != nil {
						if _, live := st.cells[c]; live && a.Block() != nil && !l.blocks[a.Block()] {
							w.cells[c] = true
						}
					}
				}
			}
		}
	}
	return w
}

func (x *Exec) runLoop(fr *Frame, l *Loop, es []Edge) map[*ssa.BasicBlock][]Edge {
	entry := x.mergeBlock(fr, l.header, es)
	if entry == nil {
		return nil
	}
	if os.Getenv("GOVC_NOUNROLL") == "" {
		if ex, ok := x.tryUnroll(fr, l, entry); ok {
			return ex
		}
	}
	if fr.fn.Blocks[0] == l.header {
		x.unsup(fr.fn.Pos(), "loop at function entry")
	}
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			x.unsup(in.Pos(), "phi at loop header")
		}
	}
	lid := fmt.Sprintf("%s/loop%d", fr.path, l.id)
	loopPos := token.NoPos
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			loopPos = in.Pos()
			break
		}
	}
	var exits map[*ssa.BasicBlock][]Edge
	st, modified, bst := x.cutLoop(fr, lid, loopPos, l.header, entry, x.staticWrites(fr, l, entry), func(hd *State) []Edge {
		var backs []Edge
		exits, backs = x.runRegion(fr, l.blocks, l.header, []Edge{{hd, True, nil}}, l)
		return backs
	})
	x.measures(fr, l, lid, loopPos, st, modified, bst)
	return exits
}

// cutLoop runs the body of a loop from an arbitrary state that satisfies the candidate invariants, until the set of things
// that it writes is stable; it returns that state, the cells that were written and the states at the back edges.
func (x *Exec) cutLoop(fr *Frame, lid string, loopPos token.Pos, header *ssa.BasicBlock, entry *State, w *writeRec, body func(*State) []Edge) (*State, []*Cell, []*State) {
	stale := map[*Cell]bool{}
	unread := map[*Cell]bool{}
	cp := x.mark(fr)
	for attempt := 0; ; attempt++ {
		if attempt > 30 {
			x.unsup(loopPos, "loop effect analysis does not converge")
		}
		x.restore(fr, cp)
		famCh := x.famCh
		ent := entry.clone()
		H := x.newNode(ent.node)
		H.pc = ent.node.pc
		H.loop = true
		st := ent.clone()
		st.node = H
		// havoc
		for f := range w.fams {
			f = x.find(f)
			v := x.curVer(st, f)
			st.vers[f] = verPair{v.v + 1, v.m + 1}
		}
		var cs []*Cell
		for c := range st.cells {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		var modified []*Cell
		for _, c := range cs {
			ev := ent.cells[c]
			if w.cells[c] {
				nv := x.havocVal(st, c, ev, loopPos)
				st.cells[c] = nv
				modified = append(modified, c)
			}
			v := st.cells[c]
			if v.fam != 0 {
				cv := x.curVer(st, v.fam)
				oldcur := x.current(ent, ev)
				oldrd := x.readable(ent, ev)
				if w.fams[x.find(v.fam)] {
					if oldcur && !stale[c] {
						v.ver = cv.v
					} else {
						v.ver = -1
					}
					if oldrd && !unread[c] {
						v.mver = cv.m
					} else {
						v.mver = -1
					}
					st.cells[c] = v
				}
			}
		}
		var hl []string
		for h := range w.heap {
			hl = append(hl, h)
		}
		sort.Strings(hl)
		for _, h := range hl {
			x.heapGet(st, h, nil)
			st.heap[h] = Fresh("hv_"+h, st.heap[h].sort)
		}
		cands := x.gatherCands(fr, header, lid, ent, st, modified, loopPos)
		rec := &writeRec{map[*Cell]bool{}, map[string]bool{}, map[int]bool{}}
		x.rec = append(x.rec, rec)
		// header state: run the region starting with an edge that carries the header state
		backs := body(st.clone())
		x.rec = x.rec[:len(x.rec)-1]
		again := x.famCh != famCh
		for c := range rec.cells {
			if _, live := entry.cells[c]; live && !w.cells[c] {
				w.cells[c] = true
				again = true
			}
		}
		for h := range rec.heap {
			if !w.heap[h] {
				w.heap[h] = true
				again = true
			}
		}
		for f := range rec.fams {
			f = x.find(f)
			if f < len(x.fams) && !w.fams[f] {
				if _, ok := entry.vers[f]; ok || x.famAtEntry(entry, f) {
					w.fams[f] = true
					again = true
				}
			}
		}
		// back edges
		type bk struct{ st *State }
		var bst []bk
		for _, e := range backs {
			b := x.merge("back", []Edge{e})
			if b == nil {
				continue
			}
			bst = append(bst, bk{b})
			for _, c := range cs {
				hv, bv := st.cells[c], b.cells[c]
				if w.cells[c] && hv.t != nil && hv.t.sort == SSeqB && !x.tabFull[c] {
					hb, _ := stripUpd(ent.cells[c].t)
					bb, bk := stripUpd(bv.t)
					if hb != bb {
						x.tabFull[c] = true
						again = true
					}
					for k := range bk {
						if !x.tabForm[c][k] {
							if x.tabForm[c] == nil {
								x.tabForm[c] = map[int64]bool{}
							}
							x.tabForm[c][k] = true
							again = true
						}
					}
				}
				if hv.fam == 0 && bv.fam == 0 {
					continue
				}
				if hv.fam == 0 && bv.fam != 0 {
					// the header value must carry the family too
					if !w.cells[c] {
						w.cells[c] = true
						again = true
					}
					if x.loopFam[c] == 0 {
						x.loopFam[c] = bv.fam
						again = true
					}
					continue
				}
				if bv.fam != 0 && x.find(hv.fam) != x.find(bv.fam) {
					x.union(hv.fam, bv.fam)
					again = true
				}
				if bv.fam != 0 && x.current(st, hv) && !x.current(b, bv) && !stale[c] {
					stale[c] = true
					again = true
				}
				if bv.fam != 0 && x.readable(st, hv) && !x.readable(b, bv) && !unread[c] {
					unread[c] = true
					again = true
				}
			}
		}
		if again {
			continue
		}
		// invariants are kept
		for _, c := range cands {
			for _, b := range bst {
				g, ok := c.eval(b.st)
				if !ok {
					c.cand.dropped = true
					continue
				}
				if c.cand.given {
					continue
				}
				v := x.vc(b.st, "inv-keep", lid+" keeps: "+c.cand.text, g, loopPos)
				v.cand = c.cand
			}
		}
		var out []*State
		for _, b := range bst {
			out = append(out, b.st)
		}
		return st, modified, out
	}
}

func (x *Exec) famAtEntry(st *State, f int) bool {
	for _, v := range st.cells {
		if v.fam != 0 && x.find(v.fam) == x.find(f) {
			return true
		}
	}
	return false
}

func (x *Exec) havocVal(st *State, c *Cell, ev Val, pos token.Pos) Val {
	if ev.t == nil {
		return Val{ty: ev.ty, spec: "unmergeable"}
	}
	nv := Val{ty: ev.ty, t: Fresh(c.name, ev.t.sort)}
	if ev.t.sort == SSeqB && !x.tabFull[c] {
		nv.t = ev.t
		var ks []int64
		for k := range x.tabForm[c] {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for _, k := range ks {
			nv.t = SeqUpd(nv.t, I(k), Fresh(fmt.Sprintf("%s_%d", c.name, k), SBool))
		}
	}
	if ev.nilp != nil || (ev.ty != nil && isSliceT(ev.ty)) {
		nv.nilp = Fresh(c.name+".nil", SBool)
		nv.frsh = Fresh(c.name+".fresh", SBool)
		x.fact(st, Implies(nv.nilp, Eq(nv.t, Empty(nv.t.sort))))
		nv.fam = ev.fam
		if nv.fam == 0 {
			nv.fam = x.loopFam[c]
		}
		if nv.fam != 0 {
			cv := x.curVer(st, nv.fam)
			nv.ver, nv.mver = cv.v, cv.m
		}
	}
	if nv.ty != nil {
		x.typeFacts(st, nv)
	}
	return nv
}

func (x *Exec) tryUnroll(fr *Frame, l *Loop, entry *State) (map[*ssa.BasicBlock][]Edge, bool) {
	// The header must end in a branch that leaves the loop and whose condition is constant.
	last := l.header.Instrs[len(l.header.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return nil, false
	}
	if l.blocks[l.header.Succs[0]] == l.blocks[l.header.Succs[1]] {
		return nil, false
	}
	cp := x.mark(fr)
	all := map[*ssa.BasicBlock][]Edge{}
	st := entry
	for it := 0; it < 300; it++ {
		// probe the header
		cp2 := x.mark(fr)
		probe := st.clone()
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, u := r.(unsupported); u {
						ok = false
						return
					}
					panic(r)
				}
			}()
			for _, in := range l.header.Instrs[:len(l.header.Instrs)-1] {
				x.instr(fr, probe, in)
			}
			c := x.value(fr, probe, iff.Cond).t
			return c == True || c == False
		}()
		x.restore(fr, cp2)
		if !ok {
			x.restore(fr, cp)
			return nil, false
		}
		exits, backs := x.runRegion(fr, l.blocks, l.header, []Edge{{st.clone(), True, nil}}, l)
		for to, es := range exits {
			all[to] = append(all[to], es...)
		}
		if len(backs) == 0 {
			return all, true
		}
		if len(backs) > 1 && it > 16 {
			x.restore(fr, cp)
			return nil, false
		}
		st = x.merge("unroll", backs)
		if st == nil {
			return all, true
		}
	}
	x.restore(fr, cp)
	return nil, false
}

// ---- heap -----------------------------------------------------------------

func (x *Exec) heapGet(st *State, key string, fty types.Type) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := x.entry.heap[key]; ok {
		st.heap[key] = t
		return t
	}
	if fty == nil {
		panic("heapGet " + key)
	}
	var es Sort
	if strings.HasSuffix(key, "#nil") {
		es = SBool
	} else {
		s, ok := goSort(fty)
		if !ok {
			x.unsup(token.NoPos, "field type %s", fty)
		}
		es = s
	}
	t := Var("heap_"+key, ArrSort(SRef, es))
	x.entry.heap[key] = t
	st.heap[key] = t
	return t
}

func (x *Exec) loadField(st *State, ref *Term, fld string, fty types.Type) Val {
	t := Select(x.heapGet(st, fld, fty), ref)
	v := Val{t: t, ty: fty}
	if isSliceT(fty) {
		v.nilp = Select(x.heapGet(st, fld+"#nil", fty), ref)
		v.frsh = False
		x.fact(st, Implies(v.nilp, Eq(v.t, Empty(v.t.sort))))
	}
	return v
}

func (x *Exec) storeField(st *State, ref *Term, fld string, fty types.Type, v Val) {
	x.ensureNil(&v)
	x.wroteHeap(fld)
	h := x.heapGet(st, fld, fty)
	st.heap[fld] = Store(h, ref, v.t)
	if isSliceT(fty) {
		hn := x.heapGet(st, fld+"#nil", fty)
		x.wroteHeap(fld + "#nil")
		st.heap[fld+"#nil"] = Store(hn, ref, v.nilp)
		// memory stored in the heap is no longer exclusively held
		if v.fam != 0 {
			x.bump(st, v.fam, false)
		}
	}
}

// ---- instruction semantics -------------------------------------------------

func (x *Exec) value(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Function:
		return Val{ty: v.Type(), t: Var("fn_"+v.Name(), SFn), clo: &Closure{fn: v}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	case *ssa.Global:
		x.unsup(v.Pos(), "global %s", v.Name())
	case *ssa.Builtin:
		x.unsup(v.Pos(), "builtin value %s", v.Name())
	}
	r, ok := fr.regs[v]
	if !ok {
		x.unsup(v.Pos(), "undefined register %s in %s", v.Name(), fr.fn.Name())
	}
	return r
}

func (x *Exec) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t, c.Pos())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{ty: t, t: B(constant.BoolVal(c.Value))}
	case constant.String:
		return Val{ty: t, t: Lit(constant.StringVal(c.Value))}
	case constant.Int:
		if s, _ := goSort(t); s == SInt {
			n, ok := constant.Int64Val(c.Value)
			if !ok {
				x.unsup(c.Pos(), "constant %s", c.Value)
			}
			return Val{ty: t, t: I(n)}
		}
	}
	if s, _ := goSort(t); s == SFlt {
		return Val{ty: t, t: Var("flt_"+c.Value.ExactString(), SFlt)}
	}
	x.unsup(c.Pos(), "constant %s", c)
	return Val{}
}

func (x *Exec) readVal(st *State, v Val, pos token.Pos) {
	if v.spec == "unmergeable" {
		x.unsup(pos, "use of a value merged from different pointers")
	}
	if v.fam != 0 && !x.readable(st, v) {
		x.unsup(pos, "read through an alias of mutated memory")
	}
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	set := func(r ssa.Value, v Val) {
		if v.ty == nil {
			v.ty = r.Type()
		}
		fr.regs[r] = v
	}
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		el := deref(in.Type())
		if _, ok := isStructT(el); ok {
			ref := Fresh("new_"+typeName(el), SRef)
			x.fact(st, Not(Eq(ref, ZeroOf(SRef))))
			for _, r := range x.newRefs {
				x.fact(st, Not(Eq(ref, r)))
			}
			x.newRefs = append(x.newRefs, ref)
			x.initStruct(st, ref, el, pos)
			set(in, Val{t: ref, ty: in.Type()})
			return
		}
		c := fr.cells[in]
		if c == nil {
			x.ncell++
			c = &Cell{name: in.Comment, ty: el, id: x.ncell, fr: fr, al: in}
			fr.cells[in] = c
		}
		x.wroteCell(c)
		st.cells[c] = x.zero(el, pos)
		set(in, Val{addr: &Addr{kind: ACell, cell: c}, ty: in.Type()})
	case *ssa.Store:
		a := x.value(fr, st, in.Addr)
		v := x.value(fr, st, in.Val)
		x.store(st, a, v, pos)
	case *ssa.UnOp:
		v := x.value(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			set(in, x.load(st, v, deref(in.X.Type()), pos))
		case token.NOT:
			set(in, Val{t: Not(v.t)})
		case token.SUB:
			if v.t.sort != SInt {
				x.unsup(pos, "float negation")
			}
			set(in, Val{t: Sub(I(0), v.t)})
		default:
			x.unsup(pos, "unary %s", in.Op)
		}
	case *ssa.BinOp:
		set(in, x.binop(fr, st, in))
	case *ssa.Call:
		r := x.call(fr, st, in.Common(), in, pos)
		r.ty = in.Type()
		fr.regs[in] = r
	case *ssa.Extract:
		v := x.value(fr, st, in.Tuple)
		set(in, v.tuple[in.Index])
	case *ssa.ChangeType:
		v := x.value(fr, st, in.X)
		v.ty = in.Type()
		set(in, v)
	case *ssa.Convert:
		set(in, x.convert(st, x.value(fr, st, in.X), in.X.Type(), in.Type(), pos))
	case *ssa.MakeInterface:
		v := x.value(fr, st, in.X)
		b := v
		if v.t == nil {
			x.unsup(pos, "interface of %s", in.X.Type())
		}
		set(in, Val{t: boxTerm(v.t), boxed: &b})
	case *ssa.MakeSlice:
		n := x.value(fr, st, in.Len).t
		k := x.value(fr, st, in.Cap).t
		s, ok := goSort(in.Type())
		if !ok {
			x.unsup(pos, "make %s", in.Type())
		}
		x.check(st, "safety", "make: 0 <= len <= cap", And(Le(I(0), n), Le(n, k)), pos)
		set(in, Val{t: Zeros(s, n), nilp: False, frsh: True, fam: x.newFam(st), cap: nil})
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bindings = append(c.bindings, x.value(fr, st, b))
		}
		set(in, Val{t: Fresh("clo", SFn), clo: c})
	case *ssa.Slice:
		set(in, x.slice(fr, st, in))
	case *ssa.IndexAddr:
		b := x.value(fr, st, in.X)
		i := x.value(fr, st, in.Index).t
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
			// pointer to array
			if b.addr == nil || b.addr.kind != ACell {
				x.unsup(pos, "array pointer")
			}
			cv := st.cells[b.addr.cell]
			cv.home = &Addr{kind: ACell, cell: b.addr.cell}
			x.check(st, "safety", "index in range", And(Le(I(0), i), Lt(i, SeqLen(cv.t))), pos)
			set(in, Val{addr: &Addr{kind: AElem, base: &cv, idx: i}})
			return
		}
		x.readVal(st, b, pos)
		x.check(st, "safety", "index in range", And(Le(I(0), i), Lt(i, SeqLen(b.t))), pos)
		set(in, Val{addr: &Addr{kind: AElem, base: &b, idx: i}})
	case *ssa.Index:
		b := x.value(fr, st, in.X)
		i := x.value(fr, st, in.Index).t
		x.check(st, "safety", "index in range", And(Le(I(0), i), Lt(i, SeqLen(b.t))), pos)
		set(in, Val{t: SeqAt(b.t, i)})
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			x.unsup(pos, "map lookup")
		}
		b := x.value(fr, st, in.X)
		i := x.value(fr, st, in.Index).t
		x.check(st, "safety", "index in range", And(Le(I(0), i), Lt(i, SeqLen(b.t))), pos)
		set(in, Val{t: SeqAt(b.t, i)})
	case *ssa.FieldAddr:
		b := x.value(fr, st, in.X)
		sT := deref(in.X.Type())
		stt, _ := isStructT(sT)
		f := stt.Field(in.Field)
		if b.t == nil {
			x.unsup(pos, "field of %s", in.X.Type())
		}
		x.check(st, "safety", "no nil dereference", Not(Eq(b.t, ZeroOf(SRef))), pos)
		set(in, Val{addr: &Addr{kind: AField, ref: b.t, fld: typeName(sT) + "." + f.Name(), fty: f.Type()}})
	case *ssa.Field:
		v := x.value(fr, st, in.X)
		if v.tuple == nil {
			x.unsup(pos, "field of struct value")
		}
		set(in, v.tuple[in.Field])
	case *ssa.MakeMap:
		if in.Type().Underlying().String() != "map[string]string" {
			x.unsup(pos, "map type %s", in.Type())
		}
		x.ncell++
		c := &Cell{name: "map", id: x.ncell}
		st.cells[c] = Val{t: App("mempty")}
		v := Val{t: Fresh("map", SMap), addr: &Addr{kind: ACell, cell: c}}
		x.fact(st, Not(Eq(v.t, ZeroOf(SMap))))
		set(in, v)
	case *ssa.MapUpdate:
		m := x.value(fr, st, in.Map)
		if m.addr == nil || m.addr.kind != ACell {
			x.unsup(pos, "update of an unknown map")
		}
		k, v := x.value(fr, st, in.Key), x.value(fr, st, in.Value)
		x.readVal(st, k, pos)
		x.readVal(st, v, pos)
		x.wroteCell(m.addr.cell)
		st.cells[m.addr.cell] = Val{t: App("mput", st.cells[m.addr.cell].t, k.t, v.t)}
	case *ssa.TypeAssert, *ssa.Range, *ssa.Next, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		x.unsup(pos, "instruction %T", in)
	default:
		x.unsup(pos, "instruction %T", in)
	}
}

func (x *Exec) initStruct(st *State, ref *Term, el types.Type, pos token.Pos) {
	s, _ := isStructT(el)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x.storeField(st, ref, typeName(el)+"."+f.Name(), f.Type(), x.zero(f.Type(), pos))
	}
}

func boxTerm(t *Term) *Term { return App("box_"+string(t.sort), t) }

func (x *Exec) load(st *State, a Val, el types.Type, pos token.Pos) Val {
	if s, ok := isStructT(el); ok && a.t != nil {
		v := Val{ty: el}
		for i := 0; i < s.NumFields(); i++ {
			v.tuple = append(v.tuple, x.loadField(st, a.t, typeName(el)+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	if a.addr == nil {
		x.unsup(pos, "load through pointer %s", el)
	}
	switch a.addr.kind {
	case ACell:
		v, ok := st.cells[a.addr.cell]
		if !ok {
			x.unsup(pos, "load of dead cell %s", a.addr.cell.name)
		}
		if v.spec == "unmergeable" {
			x.unsup(pos, "value merged from different pointers")
		}
		v.home = a.addr
		v.off = I(0)
		return v
	case AField:
		v := x.loadField(st, a.addr.ref, a.addr.fld, a.addr.fty)
		v.home = a.addr
		v.off = I(0)
		return v
	case AElem:
		b := *a.addr.base
		x.readVal(st, b, pos)
		v := Val{t: SeqAt(b.t, a.addr.idx), ty: el}
		if isSliceT(el) {
			v.nilp = Fresh("elnil", SBool)
			v.frsh = False
			x.fact(st, Implies(v.nilp, Eq(v.t, Empty(v.t.sort))))
		}
		return v
	}
	return Val{}
}

func (x *Exec) store(st *State, a, v Val, pos token.Pos) {
	x.ensureNil(&v)
	if a.addr == nil {
		if a.t != nil && v.tuple != nil {
			el := deref(a.ty)
			if s, ok := isStructT(el); ok {
				for i := 0; i < s.NumFields(); i++ {
					x.storeField(st, a.t, typeName(el)+"."+s.Field(i).Name(), s.Field(i).Type(), v.tuple[i])
				}
				return
			}
		}
		x.unsup(pos, "store through pointer")
	}
	switch a.addr.kind {
	case ACell:
		x.wroteCell(a.addr.cell)
		v.home, v.off = nil, nil
		if v.ty == nil {
			v.ty = a.addr.cell.ty
		}
		st.cells[a.addr.cell] = v
	case AField:
		x.check(st, "safety", "no nil dereference", Not(Eq(a.addr.ref, ZeroOf(SRef))), pos)
		x.storeField(st, a.addr.ref, a.addr.fld, a.addr.fty, v)
	case AElem:
		x.storeElem(st, *a.addr.base, a.addr.idx, v, pos)
	}
}

// storeElem writes one element of a slice or array.
func (x *Exec) storeElem(st *State, b Val, i *Term, v Val, pos token.Pos) {
	nt := SeqUpd(b.t, i, v.t)
	x.replaceContents(st, b, func(old *Term, off *Term) *Term {
		if off == I(0) || off == nil {
			return SeqUpd(old, i, v.t)
		}
		return SeqUpd(old, Add(off, i), v.t)
	}, nt, pos)
}

func (x *Exec) replaceContents(st *State, b Val, f func(old, off *Term) *Term, nt *Term, pos token.Pos) {
	if b.ty != nil {
		if _, arr := b.ty.Underlying().(*types.Array); arr {
			if b.home == nil || b.home.kind != ACell {
				x.unsup(pos, "array store")
			}
			c := b.home.cell
			x.wroteCell(c)
			cv := st.cells[c]
			cv.t = f(cv.t, nil)
			st.cells[c] = cv
			return
		}
	}
	fr := b.frsh
	if fr == nil {
		fr = False
	}
	x.check(st, "frame", "write only to memory owned by the call", fr, pos)
	if b.fam == 0 || b.home == nil || b.home.kind != ACell {
		if fr == False {
			return // reported above
		}
		x.unsup(pos, "write through an untracked slice")
	}
	if !x.readable(st, b) {
		x.unsup(pos, "write through a stale alias")
	}
	c := b.home.cell
	cv, ok := st.cells[c]
	if !ok || cv.fam == 0 || x.find(cv.fam) != x.find(b.fam) || !x.readable(st, cv) {
		x.unsup(pos, "write through a slice whose variable changed")
	}
	wasCur := x.current(st, cv)
	ver := x.bump(st, b.fam, true)
	x.wroteCell(c)
	cv.t = f(cv.t, b.off)
	if wasCur {
		cv.ver = ver.v
	} else {
		cv.ver = -1
	}
	cv.mver = ver.m
	st.cells[c] = cv
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	b := x.value(fr, st, in.X)
	pos := in.Pos()
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if b.addr == nil || b.addr.kind != ACell {
			x.unsup(pos, "slice of array pointer")
		}
		cv := st.cells[b.addr.cell]
		b = Val{t: cv.t, ty: in.Type(), nilp: False, frsh: True, fam: x.newFam(st), home: nil}
		b.cap = SeqLen(cv.t)
	}
	if b.t == nil {
		x.unsup(pos, "slice of %s", in.X.Type())
	}
	n := SeqLen(b.t)
	lo, hi := I(0), n
	if in.Low != nil {
		lo = x.value(fr, st, in.Low).t
	}
	if in.High != nil {
		hi = x.value(fr, st, in.High).t
	}
	x.readVal(st, b, pos)
	if in.Low != nil || in.High != nil {
		x.check(st, "safety", "slice bounds in range", And(Le(I(0), lo), Le(lo, hi), Le(hi, n)), pos)
	}
	r := b
	r.ty = in.Type()
	r.t = SeqSub(b.t, lo, hi)
	r.cap = nil
	if in.Max != nil {
		mx := x.value(fr, st, in.Max).t
		x.check(st, "safety", "slice capacity in range", And(Le(hi, mx), Le(mx, n)), pos)
		r.cap = Sub(mx, lo)
	} else if b.cap != nil {
		r.cap = Sub(b.cap, lo)
	}
	if b.home != nil {
		r.off = Add(b.off, lo)
	}
	if lo != I(0) || hi != n {
		// a partial view is not the home variable's value: appends through it would clobber
		if b.home != nil && hi != n {
			r.home = b.home
		}
	}
	return r
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fs, ok1 := goSort(from)
	ts, ok2 := goSort(to)
	if !ok1 || !ok2 || v.t == nil {
		x.unsup(pos, "conversion %s to %s", from, to)
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fs == SSeq && ts == SSeq:
		x.readVal(st, v, pos)
		r := Val{t: v.t, ty: to}
		if isSliceT(to) {
			r.nilp = False
			r.frsh = True
			r.fam = x.newFam(st)
		}
		return r
	case fs == SInt && ts == SInt && fb != nil && tb != nil:
		if intFits(fb, tb) {
			return Val{t: v.t, ty: to}
		}
		if tb.Kind() == types.Uint8 {
			return Val{t: Mod(v.t, 256), ty: to}
		}
		x.unsup(pos, "narrowing conversion %s to %s", from, to)
	}
	x.unsup(pos, "conversion %s to %s", from, to)
	return Val{}
}

func intRank(b *types.Basic) (bits int, unsigned bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	default:
		return 64, true
	}
}
func intFits(a, b *types.Basic) bool {
	ab, au := intRank(a)
	bb, bu := intRank(b)
	if au == bu {
		return ab <= bb
	}
	return au && !bu && ab < bb
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	a, b := x.value(fr, st, in.X), x.value(fr, st, in.Y)
	pos := in.Pos()
	t := in.X.Type()
	if a.t == nil || b.t == nil {
		x.unsup(pos, "operand of %s", in.Op)
	}
	if isSliceT(t) || isSliceT(in.Y.Type()) {
		// comparison with nil
		n := a
		if c, ok := in.X.(*ssa.Const); ok && c.Value == nil {
			n = b
		}
		if n.nilp == nil {
			x.unsup(pos, "nil test")
		}
		if in.Op == token.EQL {
			return Val{t: n.nilp}
		}
		return Val{t: Not(n.nilp)}
	}
	bt, _ := t.Underlying().(*types.Basic)
	isInt := a.t.sort == SInt
	switch in.Op {
	case token.EQL, token.NEQ:
		if a.t.sort == SFlt || a.t.sort == SAny || a.t.sort == SFn {
			x.unsup(pos, "comparison of %s", t)
		}
		e := Eq(a.t, b.t)
		if in.Op == token.NEQ {
			e = Not(e)
		}
		return Val{t: e}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isInt {
			x.unsup(pos, "ordering of %s", t)
		}
		switch in.Op {
		case token.LSS:
			return Val{t: Lt(a.t, b.t)}
		case token.LEQ:
			return Val{t: Le(a.t, b.t)}
		case token.GTR:
			return Val{t: Lt(b.t, a.t)}
		}
		return Val{t: Le(b.t, a.t)}
	case token.ADD:
		if a.t.sort == SSeq {
			return Val{t: Cat(SSeq, a.t, b.t)}
		}
		if !isInt {
			x.unsup(pos, "float arithmetic")
		}
		return Val{t: x.wrap(bt, Add(a.t, b.t))}
	case token.SUB:
		if !isInt {
			x.unsup(pos, "float arithmetic")
		}
		return Val{t: x.wrap(bt, Sub(a.t, b.t))}
	case token.MUL:
		if !isInt {
			x.unsup(pos, "float arithmetic")
		}
		return Val{t: x.wrap(bt, Mul(a.t, b.t))}
	case token.AND:
		if a.t.sort == SBool {
			return Val{t: And(a.t, b.t)}
		}
		if isInt && b.t.op == "int" && (b.t.i+1)&b.t.i == 0 && b.t.i > 0 {
			return Val{t: Mod(a.t, b.t.i+1)}
		}
	case token.REM:
		if isInt && b.t.op == "int" && b.t.i > 0 {
			// Go remainder: sign of the dividend
			m := Mod(a.t, b.t.i)
			return Val{t: Ite(Or(Le(I(0), a.t), Eq(m, I(0))), m, Sub(m, I(b.t.i)))}
		}
	case token.QUO:
		if isInt && b.t.op == "int" && b.t.i > 0 {
			d := DivT(a.t, b.t.i)
			m := Mod(a.t, b.t.i)
			return Val{t: Ite(Or(Le(I(0), a.t), Eq(m, I(0))), d, Add(d, I(1)))}
		}
	case token.SHR:
		if isInt && b.t.op == "int" && b.t.i >= 0 && b.t.i < 31 {
			return Val{t: DivT(a.t, 1<<uint(b.t.i))}
		}
	case token.SHL:
		if isInt && b.t.op == "int" && b.t.i >= 0 && b.t.i < 31 {
			return Val{t: x.wrap(bt, Scale(1<<uint(b.t.i), a.t))}
		}
	}
	x.unsup(pos, "operator %s on %s", in.Op, t)
	return Val{}
}

func (x *Exec) wrap(b *types.Basic, t *Term) *Term {
	if b != nil && b.Kind() == types.Uint8 {
		return Mod(t, 256)
	}
	return t
}

// stripUpd removes constant-index updates.
func stripUpd(t *Term) (*Term, map[int64]bool) {
	ks := map[int64]bool{}
	for t.op == "upd" && t.args[1].op == "int" {
		ks[t.args[1].i] = true
		t = t.args[0]
	}
	return t, ks
}
