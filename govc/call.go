package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, in *ssa.Call, pos token.Pos) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, c, in, pos)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.value(fr, st, a))
	}
	if c.IsInvoke() {
		recv := x.value(fr, st, c.Value)
		if c.Method.Name() == "Error" && recv.t.sort == SErr {
			x.check(st, "safety", "Error() on a non-nil error", Not(Eq(recv.t, ZeroOf(SErr))), pos)
			return Val{t: App("emsg", recv.t), ty: types.Typ[types.String]}
		}
		x.unsup(pos, "method call %s", c.Method.Name())
	}
	fn := c.StaticCallee()
	if fn == nil {
		f := x.value(fr, st, c.Value)
		if f.clo != nil {
			return x.inline(fr, st, f.clo.fn, args, f.clo.bindings, in, in.Type(), pos)
		}
		return x.callback(fr, st, f, args, in, pos)
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		f := x.value(fr, st, mc)
		return x.inline(fr, st, fn, args, f.clo.bindings, in, in.Type(), pos)
	}
	if fn.Pkg != x.prog.pkg {
		return x.external(fr, st, fn, args, c, in, pos)
	}
	name := x.prog.names[fn]
	if con := x.spec.contracts[name]; con != nil && !con.inline {
		return x.modular(fr, st, fn, con, args, in, pos)
	}
	return x.inline(fr, st, fn, args, nil, in, in.Type(), pos)
}

func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, args []Val, free []Val, in *ssa.Call, rt types.Type, pos token.Pos) Val {
	if fr.depth > 12 {
		x.unsup(pos, "inlining too deep at %s", fn.Name())
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			x.unsup(pos, "recursive call of %s, which has no contract", fn.Name())
		}
	}
	if len(fn.Blocks) == 0 {
		x.unsup(pos, "no body: %s", fn.Name())
	}
	n := x.prog.names[fn]
	if n == "" {
		n = fn.Name()
	}
	x.inlined[n] = true
	nf := &Frame{fn: fn, regs: map[ssa.Value]Val{}, cells: map[*ssa.Alloc]*Cell{}, parent: fr, depth: fr.depth + 1, free: free, args: args}
	idx := 0
	for i, q := range in.Block().Instrs {
		if q == ssa.Instruction(in) {
			idx = i
		}
	}
	nf.path = fmt.Sprintf("%s>%s@%d.%d", fr.path, n, in.Block().Index, idx)
	for i, p := range fn.Params {
		v := args[i]
		v.home, v.off = nil, nil
		if v.ty == nil {
			v.ty = p.Type()
		}
		nf.regs[p] = v
	}
	st2 := st.clone()
	x.runFunction(nf, st2)
	if len(nf.rets) == 0 {
		// never returns: dead state
		n := x.newNode(st.node)
		n.pc = False
		st.node = n
		if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 0 {
			return Val{ty: rt}
		}
		return x.symbol(st, "dead", rt, pos)
	}
	// merge the returns
	var es []Edge
	nres := fn.Signature.Results().Len()
	pcs := make([]*Cell, nres)
	for i := range pcs {
		x.ncell++
		pcs[i] = &Cell{name: fn.Name() + ".r" + fmt.Sprint(i), ty: fn.Signature.Results().At(i).Type(), id: x.ncell}
	}
	for _, r := range nf.rets {
		s := r.st.clone()
		for i, v := range r.vals {
			x.ensureNil(&v)
			s.cells[pcs[i]] = v
		}
		for c := range s.cells {
			if c.fr == nf {
				delete(s.cells, c)
			}
		}
		es = append(es, Edge{s, True, nil})
	}
	m := x.merge("ret_"+fn.Name(), es)
	if m == nil {
		n := x.newNode(st.node)
		n.pc = False
		st.node = n
		return x.symbol(st, "dead", rt, pos)
	}
	var out Val
	if nres == 1 {
		out = m.cells[pcs[0]]
	} else {
		out = Val{ty: rt}
		for i := range pcs {
			out.tuple = append(out.tuple, m.cells[pcs[i]])
		}
	}
	for i := range pcs {
		delete(m.cells, pcs[i])
	}
	*st = *m
	return out
}

// modular call against a contract
func (x *Exec) modular(fr *Frame, st *State, fn *ssa.Function, con *Contract, args []Val, in *ssa.Call, pos token.Pos) Val {
	x.called[con.name] = true
	env := &Env{x: x, st: st, old: st, vars: map[string]Val{}, con: con}
	if len(con.params) != len(fn.Params) {
		x.unsup(pos, "contract of %s names %d parameters, the function has %d", con.name, len(con.params), len(fn.Params))
	}
	for i, p := range con.params {
		v := args[i]
		x.ensureNil(&v)
		x.readVal(st, v, pos)
		if v.ty == nil {
			v.ty = fn.Params[i].Type()
		}
		env.vars[p] = v
	}
	for _, r := range con.requires {
		t, err := env.boolean(r.e)
		if err != nil {
			x.unsup(pos, "requires of %s: %v", con.name, err)
		}
		if x.ghostCall != nil {
			x.ghostCall = And(x.ghostCall, t)
			continue
		}
		x.check(st, "requires", "call "+con.name+": "+r.text, t, pos)
	}
	// direct recursion must descend
	if x.root.fn == fn {
		dec, some := con.base.dec, len(con.base.dec) > 0
		for _, b := range con.behaviors {
			some = some || len(b.dec) > 0
		}
		if !x.isBase {
			dec = x.beh.dec
		}
		if !some && x.isBase {
			x.vc(st, "term", "recursive call of "+con.name+" descends (no measure)", False, pos)
		}
		for _, d := range dec {
			nv, err := env.integer(d.e)
			renv := x.rootEnv(x.entry)
			ov, err2 := renv.integer(d.e)
			if err != nil || err2 != nil {
				x.unsup(pos, "decreases: %v %v", err, err2)
			}
			x.vc(st, "term", "recursive call of "+con.name+" descends", And(Lt(nv, ov), Le(I(0), ov)), pos)
		}
	}
	pre := st.clone()
	// callbacks
	for i, a := range args {
		if _, ok := fn.Params[i].Type().Underlying().(*types.Signature); !ok || x.ghostCall != nil {
			continue
		}
		if a.clo != nil {
			x.iterate(fr, st, fn.Params[i].Type(), con, env, a.clo, in, pos)
		} else {
			x.passOn(fr, st, a, fn.Params[i].Type(), con, env, pos)
		}
	}
	// effects
	for _, m := range con.modifies {
		parts := strings.SplitN(m, ".", 2)
		rv, ok := env.vars[parts[0]]
		if !ok || len(parts) != 2 {
			x.unsup(pos, "modifies %s", m)
		}
		sT := deref(rv.ty)
		stt, _ := isStructT(sT)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == parts[1] {
				nv := x.symbol(st, "mod", stt.Field(i).Type(), pos)
				x.storeField(st, rv.t, typeName(sT)+"."+parts[1], stt.Field(i).Type(), nv)
			}
		}
	}
	env.st = st
	env.old = pre
	// results
	sig := fn.Signature.Results()
	var res []Val
	for i := 0; i < sig.Len(); i++ {
		var v Val
		t := sig.At(i).Type()
		if con.pure {
			v = x.pureResult(st, con, fn, i, args, t)
		} else {
			v = x.symbol(st, con.name+".r", t, pos)
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			x.ncell++
			c := &Cell{name: con.name + ".map", id: x.ncell}
			st.cells[c] = Val{t: Fresh("mapc", SMapC)}
			v.addr = &Addr{kind: ACell, cell: c}
		}
		if isSliceT(t) {
			v.frsh = Fresh(con.name+".fresh", SBool)
			v.fam = x.newFam(st)
		}
		res = append(res, v)
	}
	for i, r := range con.results {
		if i < len(res) {
			env.vars[r] = res[i]
		}
	}
	env.atCall = true
	for _, e := range con.base.ensures {
		t, err := env.boolean(e.e)
		if err != nil {
			x.unsup(pos, "ensures of %s: %v", con.name, err)
		}
		if x.ghostCall != nil {
			t = Implies(x.ghostCall, t)
		}
		x.assume(st, t)
	}
	env.finishNew(pos)
	own := con == x.con && !x.isBase && x.beh.follows && in == nil // a consequence may use the ones before it
	for _, b := range con.behaviors {
		if b == x.beh {
			own = false
		}
		if b.local && !(own && b.follows) || !x.wantBehavior(b.name) {
			continue
		}
		var as []*Term
		for _, a := range b.assumes {
			t, err := env.withOld().boolean(a.e)
			if err != nil {
				x.unsup(pos, "assumes of %s: %v", con.name, err)
			}
			as = append(as, t)
		}
		for _, e := range b.ensures {
			t, err := env.boolean(e.e)
			if err != nil {
				x.unsup(pos, "ensures of %s: %v", con.name, err)
			}
			if x.ghostCall != nil {
				t = Implies(x.ghostCall, t)
			}
			x.assume(st, Implies(And(as...), t))
		}
	}
	x.delegated(st, con, args, res)
	if len(res) == 1 {
		return res[0]
	}
	if in == nil {
		return Val{tuple: res}
	}
	return Val{tuple: res, ty: in.Type()}
}

func (x *Exec) wantBehavior(name string) bool {
	return !x.isBase || x.ghostCall != nil
}

func pureName(con *Contract, i int) string {
	return strings.ReplaceAll(con.name, ".", "_") + "_" + fmt.Sprint(i)
}

func (x *Exec) pureArgs(st *State, args []Val, fn *ssa.Function) []*Term {
	var ts []*Term
	for i, a := range args {
		p := fn.Params[i].Type()
		if pt, ok := p.Underlying().(*types.Pointer); ok {
			if s, ok := isStructT(pt.Elem()); ok {
				for k := 0; k < s.NumFields(); k++ {
					f := s.Field(k)
					v := x.loadField(st, a.t, typeName(pt.Elem())+"."+f.Name(), f.Type())
					ts = append(ts, v.t)
					if isSliceT(f.Type()) {
						ts = append(ts, v.nilp)
					}
				}
				continue
			}
		}
		ts = append(ts, a.t)
		if isSliceT(p) {
			x.ensureNil(&a)
			n := a.nilp
			if n == nil {
				n = False
			}
			ts = append(ts, n)
		}
	}
	return ts
}

// pureResult is result i of a deterministic function as a term over its arguments (slices carry a nil flag).
func (x *Exec) pureResult(st *State, con *Contract, fn *ssa.Function, i int, args []Val, t types.Type) Val {
	ts := x.pureArgs(st, args, fn)
	n := pureName(con, i)
	s, ok := goSort(t)
	if !ok {
		x.unsup(fn.Pos(), "result sort %s", t)
	}
	if _, ok := C.funs[n]; !ok {
		var as []Sort
		for _, a := range ts {
			as = append(as, a.sort)
		}
		Declare(n, s, as...)
		if isSliceT(t) {
			Declare(n+"_nil", SBool, as...)
		}
	}
	v := Val{ty: t, t: App(n, ts...)}
	if isSliceT(t) {
		v.nilp = App(n+"_nil", ts...)
		v.frsh = False
		x.fact(st, Implies(v.nilp, Eq(v.t, Empty(s))))
	}
	x.typeFacts(st, v)
	return v
}

// callback: a call of a function-valued parameter
func (x *Exec) callback(fr *Frame, st *State, f Val, args []Val, in *ssa.Call, pos token.Pos) Val {
	if x.con == nil || x.cbCells == nil {
		x.unsup(pos, "call of an unknown function value")
	}
	x.extern["callback parameter"] = true
	stopped := st.cells[x.cbCells["stopped"]]
	n := st.cells[x.cbCells["ncalls"]]
	if !x.con.goeson {
		x.check(st, "ensures", "no callback after a stop or an error", Not(stopped.t), pos)
	}
	env := x.rootEnv(st)
	env.fr = fr
	for i, a := range args {
		env.vars[fmt.Sprintf("arg%d", i)] = a
	}
	for _, c := range x.con.calls {
		t, err := env.boolean(c.e)
		if err != nil {
			x.unsup(pos, "calls clause: %v", err)
		}
		if !x.isBase {
			v := x.vc(st, "ensures", "callback arguments: "+c.text, t, pos)
			v.label = c.label
		}
		x.assume(st, t)
	}
	r := x.symbol(st, "cb", in.Type(), pos)
	keep, er := r.tuple[0], r.tuple[1]
	for _, k := range []string{"stopped", "ncalls", "cberr", "cbkeep"} {
		x.wroteCell(x.cbCells[k])
	}
	st.cells[x.cbCells["ncalls"]] = Val{t: Add(n.t, I(1)), ty: n.ty}
	st.cells[x.cbCells["stopped"]] = Val{t: Or(stopped.t, Not(keep.t), Not(Eq(er.t, ZeroOf(SErr)))), ty: stopped.ty}
	st.cells[x.cbCells["cberr"]] = Val{t: er.t, ty: er.ty}
	st.cells[x.cbCells["cbkeep"]] = Val{t: keep.t, ty: keep.ty}
	return r
}

// cbTypes are the parameter types of a callback.
func cbTypes(t types.Type) (ts []types.Type) {
	p := t.Underlying().(*types.Signature).Params()
	for i := 0; i < p.Len(); i++ {
		ts = append(ts, p.At(i).Type())
	}
	return
}

// cbArgs assumes in st what the contract says of the callee's call number n of its callback, and returns the arguments.
func (x *Exec) cbArgs(st *State, con *Contract, env *Env, ts []types.Type, n, stopped, cberr *Term, pos token.Pos) []Val {
	e := &Env{x: x, st: st, old: env.old, vars: map[string]Val{}, con: con, atCall: true}
	for k, v := range env.vars {
		e.vars[k] = v
	}
	var args []Val
	for i, t := range ts {
		a := x.symbol(st, "cbarg", t, pos)
		args = append(args, a)
		e.vars[fmt.Sprintf("arg%d", i)] = a
	}
	e.vars["ncalls"], e.vars["stopped"], e.vars["cberr"] = Val{t: n}, Val{t: stopped}, Val{t: cberr}
	e.vars["cbkeep"] = Val{t: Fresh("keep", SBool)}
	x.assume(st, Le(I(0), n))
	for _, c := range con.calls {
		t, err := e.boolean(c.e)
		if err != nil {
			x.unsup(pos, "calls clause of %s: %v", con.name, err)
		}
		x.assume(st, t)
	}
	return args
}

// iterate: a call of a function that calls the given closure again and again.  The calls are a loop whose body is the
// closure, run on arguments that satisfy the callee's calls clause; iter counts the calls that went on.
func (x *Exec) iterate(fr *Frame, st *State, ft types.Type, con *Contract, env *Env, clo *Closure, in *ssa.Call, pos token.Pos) {
	if con.goeson {
		x.unsup(pos, "closure passed to %s, which may go on after a stop", con.name)
	}
	idx := 0
	for i, q := range in.Block().Instrs {
		if q == ssa.Instruction(in) {
			idx = i
		}
	}
	intT, boolT, errT := types.Typ[types.Int], types.Typ[types.Bool], types.Universe.Lookup("error").Type()
	cell := func(n string, t types.Type) *Cell {
		x.ncell++
		return &Cell{name: n, id: x.ncell, ty: t}
	}
	k := cell("iter", intT)
	gs := map[string]*Cell{"ncalls": cell("it.ncalls", intT), "stopped": cell("it.stopped", boolT), "cberr": cell("it.cberr", errT), "cbkeep": cell("it.keep", boolT)}
	set := func(s *State, n, stopped, er, keep *Term) {
		s.cells[gs["ncalls"]] = Val{t: n, ty: intT}
		s.cells[gs["stopped"]] = Val{t: stopped, ty: boolT}
		s.cells[gs["cberr"]] = Val{t: er, ty: errT}
		s.cells[gs["cbkeep"]] = Val{t: keep, ty: boolT}
	}
	entry := x.merge("iter0", []Edge{{st.clone(), True, nil}})
	if entry == nil {
		entry = st.clone()
	}
	entry.cells[k] = Val{t: I(0), ty: intT}
	lid := fmt.Sprintf("%s/iter@%d.%d", fr.path, in.Block().Index, idx)
	var out []Edge
	saved := x.iterCell
	x.iterCell = k
	rt := ft.Underlying().(*types.Signature).Results()
	w := &writeRec{map[*Cell]bool{k: true}, map[string]bool{}, map[int]bool{}}
	x.cutLoop(fr, lid, pos, nil, entry, w, func(h *State) []Edge {
		out = nil
		more := Fresh("more", SBool)
		fin := h.clone()
		n := fin.cells[k].t
		set(fin, n, False, ZeroOf(SErr), True)
		delete(fin.cells, k)
		out = append(out, Edge{fin, Not(more), nil})
		s := x.merge("iter", []Edge{{h, more, nil}})
		if s == nil {
			return nil
		}
		args := x.cbArgs(s, con, env, cbTypes(ft), n, False, ZeroOf(SErr), pos)
		r := x.inline(fr, s, clo.fn, args, clo.bindings, in, rt, pos)
		keep, er := r.tuple[0].t, r.tuple[1].t
		on := And(keep, Eq(er, ZeroOf(SErr)))
		st1 := s.clone()
		set(st1, Add(n, I(1)), True, er, keep)
		delete(st1.cells, k)
		out = append(out, Edge{st1, Not(on), nil})
		b := s.clone()
		b.cells[k] = Val{t: Add(n, I(1)), ty: intT}
		return []Edge{{b, on, nil}}
	})
	x.iterCell = saved
	m := x.merge("iterated", out)
	if m == nil {
		x.unsup(pos, "iteration without exit")
	}
	for nm, c := range gs {
		env.vars[nm] = m.cells[c]
		delete(m.cells, c)
	}
	*st = *m
}

// passOn: a call of a function to which this function hands its own callback
func (x *Exec) passOn(fr *Frame, st *State, f Val, ft types.Type, con *Contract, env *Env, pos token.Pos) {
	own := false
	for _, p := range x.params {
		if p.t == f.t {
			own = true
		}
	}
	if !own || x.cbCells == nil || x.con == nil {
		x.unsup(pos, "unknown function value passed to %s", con.name)
	}
	x.extern["callback parameter"] = true
	get := func(n string) *Term { return st.cells[x.cbCells[n]].t }
	n0, stopped0, er0, keep0 := get("ncalls"), get("stopped"), get("cberr"), get("cbkeep")
	if !x.con.goeson {
		x.check(st, "ensures", "no callback after a stop or an error", Not(stopped0), pos)
		if con.goeson {
			x.unsup(pos, "%s may go on after a stop", con.name)
		}
	}
	if len(x.con.calls) > 0 {
		s := x.merge("pass", []Edge{{st.clone(), True, nil}})
		if s != nil {
			sb, eb := False, ZeroOf(SErr)
			if con.goeson {
				sb, eb = Fresh("stopped", SBool), Fresh("cberr", SErr)
			}
			k := Fresh("k", SInt)
			args := x.cbArgs(s, con, env, cbTypes(ft), k, sb, eb, pos)
			s.cells[x.cbCells["ncalls"]] = Val{t: Add(n0, k), ty: types.Typ[types.Int]}
			s.cells[x.cbCells["stopped"]] = Val{t: Or(stopped0, sb), ty: types.Typ[types.Bool]}
			s.cells[x.cbCells["cberr"]] = Val{t: Fresh("cberr", SErr), ty: types.Universe.Lookup("error").Type()}
			e := x.rootEnv(s)
			e.fr = fr
			for i, a := range args {
				e.vars[fmt.Sprintf("arg%d", i)] = a
			}
			for _, c := range x.con.calls {
				t, err := e.boolean(c.e)
				if err != nil {
					x.unsup(pos, "calls clause: %v", err)
				}
				if !x.isBase {
					v := x.vc(s, "ensures", "callback arguments passed on: "+c.text, t, pos)
					v.label = c.label
				}
			}
		}
	}
	m, sb, eb, kb := Fresh("ncalls", SInt), Fresh("stopped", SBool), Fresh("cberr", SErr), Fresh("keep", SBool)
	x.fact(st, Le(I(0), m))
	x.fact(st, Implies(Eq(m, I(0)), And(Not(sb), Eq(eb, ZeroOf(SErr)), kb)))
	x.fact(st, Implies(Not(sb), And(Eq(eb, ZeroOf(SErr)), kb)))
	if !con.goeson {
		x.fact(st, Eq(sb, Or(Not(kb), Not(Eq(eb, ZeroOf(SErr))))))
	}
	for _, k := range []string{"stopped", "ncalls", "cberr", "cbkeep"} {
		x.wroteCell(x.cbCells[k])
	}
	put := func(n string, t *Term) {
		c := x.cbCells[n]
		st.cells[c] = Val{t: t, ty: c.ty}
	}
	put("ncalls", Add(n0, m))
	put("stopped", Or(stopped0, sb))
	put("cberr", Ite(Eq(m, I(0)), er0, eb))
	put("cbkeep", Ite(Eq(m, I(0)), keep0, kb))
	env.vars["ncalls"], env.vars["stopped"], env.vars["cberr"], env.vars["cbkeep"] = Val{t: m}, Val{t: sb}, Val{t: eb}, Val{t: kb}
}

// delegated records a call that a delegates clause may name.
func (x *Exec) delegated(st *State, con *Contract, args, res []Val) {
	d := x.con.delegates
	if d == nil || x.dgCell == nil || x.ghostCall != nil {
		return
	}
	ok := False
	if d.k == "call" && d.s == con.name && len(d.a) == len(args) {
		env := x.rootEnv(x.entry)
		ok = True
		for i := range args {
			v, err := env.val(d.a[i])
			if err != nil || v.t == nil || args[i].t == nil || v.t.sort != args[i].t.sort {
				ok = False
				break
			}
			ok = And(ok, Eq(v.t, args[i].t))
			if v.nilp != nil && args[i].nilp != nil {
				ok = And(ok, Eq(v.nilp, args[i].nilp))
			}
		}
	}
	x.wroteCell(x.dgCell)
	old := st.cells[x.dgCell]
	nv := Val{ty: x.dgCell.ty, t: Ite(And(Eq(old.t, I(0)), ok), I(1), I(2))}
	st.cells[x.dgCell] = nv
	for i, r := range res {
		if i < len(x.dgRes) {
			x.wroteCell(x.dgRes[i])
			st.cells[x.dgRes[i]] = r
		}
	}
}

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, in *ssa.Call, pos token.Pos) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.value(fr, st, a))
	}
	switch b.Name() {
	case "ssa:deferstack":
		return Val{t: Var("refnil", SRef), ty: in.Type()}
	case "len":
		a := args[0]
		if a.t == nil || !isSeq(a.t.sort) {
			x.unsup(pos, "len of %s", c.Args[0].Type())
		}
		return Val{t: SeqLen(a.t), ty: in.Type()}
	case "cap":
		a := args[0]
		if a.cap != nil {
			return Val{t: a.cap, ty: in.Type()}
		}
		v := Fresh("cap", SInt)
		x.fact(st, Le(SeqLen(a.t), v))
		return Val{t: v, ty: in.Type()}
	case "append":
		a, y := args[0], args[1]
		x.ensureNil(&a)
		x.readVal(st, a, pos)
		x.readVal(st, y, pos)
		if y.ty != nil && !isSliceT(y.ty) {
			y.nilp = Eq(y.t, Empty(y.t.sort))
		}
		if a.nilp == nil {
			a.nilp = False
		}
		if a.frsh == nil {
			a.frsh = False
		}
		ylen := SeqLen(y.t)
		none := Eq(ylen, I(0))
		full := False
		if a.cap != nil {
			full = Eq(a.cap, SeqLen(a.t))
		}
		stale := a.fam != 0 && !x.current(st, a)
		own := a.frsh
		if stale {
			own = False // somebody already appended to this memory
		}
		x.check(st, "frame", "append does not write to memory owned by the caller", Or(own, full, a.nilp, none), pos)
		r := Val{ty: in.Type(), t: Cat(a.t.sort, a.t, y.t)}
		r.nilp = And(a.nilp, none)
		r.frsh = Or(own, And(Or(full, a.nilp), Not(none)))
		if r.frsh == False {
			r.frsh = False
		}
		if a.fam == 0 || (full != False && a.frsh == False) {
			r.fam = x.newFam(st)
		} else {
			r.fam = a.fam
			v := x.bump(st, a.fam, false)
			r.ver, r.mver = v.v, a.mver
		}
		return r
	case "copy":
		d, s := args[0], args[1]
		x.readVal(st, s, pos)
		x.readVal(st, d, pos)
		dl, sl := SeqLen(d.t), SeqLen(s.t)
		n := Ite(Le(dl, sl), dl, sl)
		if n.op == "ite" {
			v := Fresh("ncopy", SInt)
			x.fact(st, Eq(v, n))
			n = v
		}
		// destination contents change
		f := func(old, off *Term) *Term {
			if off == nil {
				off = I(0)
			}
			return Cat(old.sort, SeqSub(old, I(0), off), SeqSub(s.t, I(0), n), SeqSub(old, Add(off, n), SeqLen(old)))
		}
		if d.t.sort != s.t.sort {
			x.unsup(pos, "copy")
		}
		x.replaceContents(st, d, f, nil, pos)
		return Val{t: n, ty: in.Type()}
	}
	x.unsup(pos, "builtin %s", b.Name())
	return Val{}
}

// external functions: the assumed contracts on dependencies
func (x *Exec) external(fr *Frame, st *State, fn *ssa.Function, args []Val, c *ssa.CallCommon, in *ssa.Call, pos token.Pos) Val {
	full := fn.String()
	x.extern[full] = true
	str := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()
	mkerr := func(ok *Term) Val {
		e := Fresh("exterr", SErr)
		x.fact(st, Eq(ok, Eq(e, ZeroOf(SErr))))
		return Val{t: e, ty: errT}
	}
	intTerm := func(f string) *Term {
		v := App(f, args[0].t)
		return v
	}
	switch full {
	case "strconv.Itoa":
		return Val{t: App("itoa", args[0].t), ty: str}
	case "strconv.FormatInt", "strconv.FormatUint":
		x.check(st, "safety", "number base between 2 and 36", And(Le(I(2), args[1].t), Le(args[1].t, I(36))), pos)
		if args[1].t == I(10) {
			return Val{t: App("itoa", args[0].t), ty: str}
		}
		return Val{t: App("fmtint", args[0].t, args[1].t), ty: str}
	case "strconv.FormatFloat":
		if args[1].t == I('f') && args[2].t == I(-1) && args[3].t == I(64) {
			return Val{t: App("fmtflt", args[0].t), ty: str}
		}
		return Val{t: App("fmtfltg", args[0].t, args[1].t, args[2].t, args[3].t), ty: str}
	case "strconv.FormatBool":
		return Val{t: Ite(args[0].t, Lit("true"), Lit("false")), ty: str}
	case "strconv.Atoi":
		ok := App("atoiok", args[0].t)
		v := x.symbol(st, "atoi", types.Typ[types.Int], pos)
		x.fact(st, Implies(ok, Eq(v.t, intTerm("atoi"))))
		return Val{tuple: []Val{v, mkerr(ok)}}
	case "strconv.ParseInt":
		ok := App("pintok", args[0].t, args[1].t, args[2].t)
		v := x.symbol(st, "pint", types.Typ[types.Int64], pos)
		x.fact(st, Implies(ok, Eq(v.t, App("pint", args[0].t, args[1].t))))
		return Val{tuple: []Val{v, mkerr(ok)}}
	case "strconv.ParseFloat":
		ok := App("pfltok", args[0].t)
		if args[1].t != I(64) {
			ok = App("pfltokb", args[0].t, args[1].t)
		}
		v := x.symbol(st, "pflt", types.Typ[types.Float64], pos)
		x.fact(st, Implies(ok, Eq(v.t, App("pflt", args[0].t))))
		return Val{tuple: []Val{v, mkerr(ok)}}
	case "fmt.Errorf":
		e := Fresh("err", SErr)
		x.fact(st, Not(Eq(e, ZeroOf(SErr))))
		if m := x.format(args[0].t, args[1]); m != nil {
			x.fact(st, Eq(App("emsg", e), m))
		}
		return Val{t: e, ty: errT}
	case "errors.New":
		e := Fresh("err", SErr)
		x.fact(st, Not(Eq(e, ZeroOf(SErr))))
		x.fact(st, Eq(App("emsg", e), args[0].t))
		return Val{t: e, ty: errT}
	case "fmt.Sprintf":
		if m := x.format(args[0].t, args[1]); m != nil {
			return Val{t: m, ty: str}
		}
	}
	x.unsup(pos, "call of %s, for which no contract is assumed", full)
	return Val{}
}

// format renders a constant format whose verbs are %v and %02d.
func (x *Exec) format(f *Term, args Val) *Term {
	if f.op != "lit" {
		return nil
	}
	es, ok := listElems(args.t)
	if !ok {
		return nil
	}
	var out []*Term
	s := f.name
	k := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = append(out, Lit(s))
			break
		}
		out = append(out, Lit(s[:i]))
		s = s[i:]
		var verb string
		for _, v := range []string{"%v", "%02d", "%d", "%s"} {
			if strings.HasPrefix(s, v) {
				verb = v
			}
		}
		if verb == "" || k >= len(es) {
			return nil
		}
		s = s[len(verb):]
		e := es[k]
		k++
		if e.op == "app" && strings.HasPrefix(e.name, "box_") {
			v := e.args[0]
			switch {
			case v.sort == SSeq && (verb == "%v" || verb == "%s"):
				out = append(out, v)
				continue
			case v.sort == SInt && v.op == "int":
				if verb == "%02d" {
					out = append(out, Lit(fmt.Sprintf("%02d", v.i)))
				} else if verb != "%s" {
					out = append(out, Lit(fmt.Sprintf("%d", v.i)))
				} else {
					return nil
				}
				continue
			case v.sort == SInt && (verb == "%v" || verb == "%d"):
				out = append(out, App("itoa", v))
				continue
			}
		}
		if verb == "%v" && e.sort == SAny {
			out = append(out, App("sprintv", e))
			continue
		}
		return nil
	}
	if k != len(es) {
		return nil
	}
	return Cat(SSeq, out...)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
