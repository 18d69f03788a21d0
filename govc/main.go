package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var theSpec *Spec
var verbose bool

func newSpec() *Spec {
	return &Spec{contracts: map[string]*Contract{}, logic: map[string]*LogicDef{}, lemmaBy: map[string]*Lemma{}}
}

var theProg *Program

// axiomTerms: definitional axioms plus the lemmas named in uses (or automatic ones) proved before position `before`.
func (sp *Spec) axiomTerms(uses []string, before int) []*Term {
	var r []*Term
	for _, a := range sp.axioms {
		r = append(r, a.term)
	}
	want := map[string]bool{}
	for _, u := range uses {
		if sp.lemmaBy[u] == nil {
			panic("unknown lemma " + u)
		}
		want[u] = true
	}
	for _, l := range sp.lemmas {
		if (want[l.name] || l.auto) && (before < 0 || l.order < before) {
			r = append(r, l.term)
		}
	}
	return r
}

func (sp *Spec) compile(prog *Program) {
	env := func() *Env { return &Env{vars: map[string]Val{}, x: &Exec{prog: prog}} }
	for _, a := range sp.axioms {
		t, err := env().boolean(a.e)
		if err != nil {
			panic(fmt.Sprintf("axiom %s: %v", a.name, err))
		}
		a.term = t
	}
	for _, l := range sp.lemmas {
		e := env()
		m := map[string]*Term{}
		var bv []*Term
		for _, p := range l.params {
			b := Bound(p.name, p.sort)
			m[p.name] = b
			bv = append(bv, b)
		}
		e.bound = append(e.bound, m)
		conj := func(cs []Clause) *Term {
			var ts []*Term
			for _, c := range cs {
				t, err := e.boolean(c.e)
				if err != nil {
					panic(fmt.Sprintf("lemma %s: %v", l.name, err))
				}
				ts = append(ts, t)
			}
			return And(ts...)
		}
		body := Implies(conj(l.requires), conj(l.ensures))
		var trs [][]*Term
		for _, tr := range l.trig {
			var ts []*Term
			for _, q := range tr {
				v, err := e.val(q)
				if err != nil {
					panic(fmt.Sprintf("lemma %s: %v", l.name, err))
				}
				ts = append(ts, v.t)
			}
			trs = append(trs, ts)
		}
		l.term = Forall(bv, trs, body)
	}
}

// proveLemma generates and discharges the obligations of a lemma.
func (sp *Spec) proveLemma(l *Lemma) (*FnResult, []func()) {
	var jobs []func()
	later := func(v *VC, q, tag string) {
		jobs = append(jobs, func() {
			v.status, v.solver, v.ms = prove(q, 1, 10)
			if v.status == "unsat" {
				v.status = "proved"
			} else {
				dump("lemma_"+l.name, tag, q)
			}
		})
	}
	r := &FnResult{Fn: "lemma " + l.name, Behavior: "lemma"}
	ax := sp.axiomTerms(l.uses, l.order)
	vars := map[string]*Term{}
	e := &Env{vars: map[string]Val{}, x: &Exec{prog: theProg}}
	for _, p := range l.params {
		v := Var(p.name, p.sort)
		vars[p.name] = v
		e.vars[p.name] = Val{t: v}
	}
	ev := func(en *Env, cs []Clause) []*Term {
		var ts []*Term
		for _, c := range cs {
			t, err := en.boolean(c.e)
			if err != nil {
				panic(fmt.Sprintf("lemma %s: %v", l.name, err))
			}
			ts = append(ts, t)
		}
		return ts
	}
	req := ev(e, l.requires)
	ens := ev(e, l.ensures)
	var facts []*Term
	if l.induct != "" {
		iv := vars[l.induct]
		from, err := e.integer(l.from)
		if err != nil {
			panic(err)
		}
		// induction hypothesis: for every smaller value >= from; the other parameters are universally
		// quantified when the induction is strong.
		m := map[string]*Term{}
		var bv []*Term
		e2 := &Env{vars: map[string]Val{}}
		for _, p := range l.params {
			if p.name == l.induct || l.strong && p.sort == SInt {
				b := Bound(p.name, p.sort)
				bv = append(bv, b)
				m[p.name] = b
				e2.vars[p.name] = Val{t: b}
			} else {
				e2.vars[p.name] = Val{t: vars[p.name]}
			}
		}
		b := m[l.induct]
		from2, _ := e2.integer(l.from)
		rng := And(Le(from2, b), Lt(b, iv))
		step := Sub(iv, I(1))
		dom := Le(from, iv)
		if l.down {
			rng, step, dom = And(Lt(iv, b), Le(b, from2)), Add(iv, I(1)), Le(iv, from)
		}
		hyp := Implies(And(rng, And(ev(e2, l.requires)...)), And(ev(e2, l.ensures)...))
		if l.strong {
			var trs [][]*Term
			for _, tr := range l.trig {
				var ts []*Term
				for _, q := range tr {
					v, err := e2.val(q)
					if err != nil {
						panic(err)
					}
					ts = append(ts, v.t)
				}
				trs = append(trs, ts)
			}
			facts = append(facts, Forall(bv, trs, hyp))
		} else {
			facts = append(facts, subst(hyp, map[*Term]*Term{b: step}))
		}
		// the induction covers every value that the lemma speaks about
		v := &VC{name: "lemma " + l.name + ": induction base", kind: "lemma", goal: dom}
		q := smt(req, dom, ax)
		later(v, q, "base")
		r.VCs = append(r.VCs, v)
		facts = append(facts, dom)
	}
	facts = append(facts, req...)
	// intermediate steps
	for i, c := range l.cases {
		t := ev(e, []Clause{c})[0]
		v := &VC{name: fmt.Sprintf("lemma %s step %d: %s", l.name, i+1, c.text), kind: "lemma", goal: t}
		q := smt(facts, t, ax)
		later(v, q, fmt.Sprintf("step%d", i+1))
		r.VCs = append(r.VCs, v)
		facts = append(facts, t)
	}
	for i, g := range ens {
		v := &VC{name: "lemma " + l.name + ": " + l.ensures[i].text, kind: "lemma", goal: g}
		q := smt(facts, g, ax)
		later(v, q, fmt.Sprintf("ens%d", i))
		r.VCs = append(r.VCs, v)
	}
	return r, jobs
}

func (sp *Spec) verifyFn(prog *Program, con *Contract, want func(beh string) bool) []*FnResult {
	var out []*FnResult
	x := newExec(prog, sp, con, con.base, true)
	if err := x.generate(); err != nil {
		return []*FnResult{{Fn: con.name, Behavior: "base", Err: err.Error(), Exec: x}}
	}
	given := map[string]bool{}
	cache := ""
	if d := os.Getenv("GOVC_BASECACHE"); d != "" { // debugging: reuse the invariants of an earlier base pass
		cache = filepath.Join(d, con.name)
	}
	if b, err := os.ReadFile(cache); err == nil && cache != "" {
		for _, k := range strings.Split(string(b), "\n") {
			given[k] = true
		}
	} else {
		k := keepInv
		keepInv = false
		var r *FnResult
		x, r = sp.solveHinted(prog, con, con.base, true, x)
		keepInv = k
		out = append(out, r)
		var ks []string
		for _, c := range x.candL {
			if !c.dropped {
				given[c.key] = true
				ks = append(ks, c.key)
			}
		}
		if cache != "" {
			os.WriteFile(cache, []byte(strings.Join(ks, "\n")), 0644)
		}
	}
	for _, b := range con.behaviors {
		if want != nil && !want(b.name) {
			continue
		}
		y := newExec(prog, sp, con, b, false)
		y.given = given
		y.wide, y.known = x.wide, x.known
		if err := y.generate(); err != nil {
			out = append(out, &FnResult{Fn: con.name, Behavior: b.name, Err: err.Error(), Exec: y})
			continue
		}
		_, r := sp.solveHinted(prog, con, b, false, y)
		out = append(out, r)
	}
	return out
}

// knownLoops: which variables the loops of the function change, by the hint file of its base pass: whatever changes a
// variable drops "not below its value at entry" or "not above it".
func knownLoops(name string) map[string]bool {
	vars := map[string]map[string]bool{}
	bs, _ := os.ReadFile(filepath.Join(hintDir, name+"_base"))
	for _, l := range strings.Split(string(bs), "\n") {
		l, _, _ = strings.Cut(l, " : ")
		if lid, k, ok := strings.Cut(l, "|"); ok {
			if _, v, ok := strings.Cut(k, "ent:"); ok {
				v, _, _ = strings.Cut(v, ":")
				if vars[lid] == nil {
					vars[lid] = map[string]bool{}
				}
				vars[lid][v] = true
			}
		}
	}
	m := map[string]bool{}
	for _, v := range vars {
		m[strings.Join(sortedKeys(v), " ")] = true
	}
	return m
}

// solveHinted solves x. A hint file lists the invariant candidates that an earlier run found not inductive; they are
// left out at first (assuming less is always sound). If anything fails then, everything is tried again from all candidates.
func (sp *Spec) solveHinted(prog *Program, con *Contract, b *Behavior, isBase bool, x *Exec) (*Exec, *FnResult) {
	file := ""
	if hintDir != "" {
		file = filepath.Join(hintDir, con.name+"_"+x.bname())
	}
	if bs, err := os.ReadFile(file); err == nil && file != "" && !writeHints {
		drop := map[string]bool{}
		for _, k := range strings.Split(string(bs), "\n") {
			drop[k] = true
		}
		for _, c := range x.candL {
			if !c.given && drop[c.key+" : "+c.text] {
				c.dropped = true
			}
		}
		x.hinted = true
		r := x.solve()
		if !x.aborted && len(r.failed()) == 0 {
			return x, r
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "  [%s/%s] again without hints\n", con.name, x.bname())
		}
		// loops that were rewritten: try the contract's invariants with other variables, too
		y := newExec(prog, sp, con, b, isBase)
		y.given = x.given
		y.wide, y.known = true, knownLoops(con.name)
		if err := y.generate(); err != nil {
			return y, &FnResult{Fn: con.name, Behavior: y.bname(), Err: err.Error(), Exec: y}
		}
		x = y
	}
	r := x.solve()
	if writeHints {
		var ks []string
		for _, c := range x.candL {
			if c.dropped && !c.given {
				ks = append(ks, c.key+" : "+c.text)
			}
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			os.WriteFile(file, []byte(strings.Join(ks, "\n")+"\n"), 0644)
		} else {
			os.Remove(file)
		}
	}
	return x, r
}

var hintDir string
var writeHints bool

func main() {
	repo := flag.String("repo", "/repo", "code under verification")
	specs := flag.String("specs", "/verif/contracts", "contract files")
	fns := flag.String("fn", "", "comma separated functions")
	lems := flag.String("lemma", "", "comma separated lemmas, or all")
	beh := flag.String("beh", "", "behaviours")
	flag.BoolVar(&verbose, "v", false, "verbose")
	list := flag.Bool("list", false, "list obligations")
	flag.BoolVar(&keepInv, "keep", false, "debugging: keep contract invariants that are established")
	flag.IntVar(&workers, "j", 8, "solver processes")
	jout := flag.String("json", "", "write the results as JSON")
	flag.StringVar(&hintDir, "hints", "", "directory of hint files (default: hints below the contract files; none: -)")
	flag.BoolVar(&writeHints, "writehints", false, "write the hint files")
	flag.Parse()
	if hintDir == "" {
		hintDir = filepath.Join(*specs, "hints")
	} else if hintDir == "-" {
		hintDir = ""
	}
	prog, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	declareBuiltins()
	theSpec = newSpec()
	files, _ := filepath.Glob(filepath.Join(*specs, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		theSpec.parseFile(f)
	}
	theProg = prog
	theSpec.compile(prog)
	var res []*FnResult
	if n := callCycle(prog, theSpec); n != "" {
		res = append(res, &FnResult{Fn: n, Behavior: "base", Err: "contracts depend on each other in a circle: " + n})
	}
	if *fns != "" {
		// an entry is F (base and every behaviour), F/base (base only) or F/beh
		want := map[string]map[string]bool{}
		for _, n := range strings.Split(*fns, ",") {
			p := strings.SplitN(n, "/", 2)
			if want[p[0]] == nil {
				want[p[0]] = map[string]bool{}
			}
			if len(p) > 1 {
				want[p[0]][p[1]] = true
			} else {
				want[p[0]]["*"] = true
			}
			if p[0] != "all" && theSpec.contracts[p[0]] == nil {
				res = append(res, &FnResult{Fn: p[0], Behavior: "base", Err: "no contract for " + p[0]})
			}
		}
		for _, n := range theSpec.order {
			w := want[n]
			if w == nil {
				w = want["all"]
			}
			if w == nil {
				continue
			}
			res = append(res, theSpec.verifyFn(prog, theSpec.contracts[n], func(b string) bool {
				return (w["*"] || w[b]) && (*beh == "" || contains(strings.Split(*beh, ","), b))
			})...)
			if *jout != "" {
				// what is decided so far
				writeJSON(*jout+".tmp", res)
				os.Rename(*jout+".tmp", *jout+".part")
			}
		}
	}
	if *lems != "" {
		var jobs []func()
		var rs []*FnResult
		for _, l := range theSpec.lemmas {
			if *lems == "all" || contains(strings.Split(*lems, ","), l.name) {
				r, js := theSpec.proveLemma(l)
				rs = append(rs, r)
				jobs = append(jobs, js...)
			}
		}
		parallel(len(jobs), func(i int) { jobs[i]() })
		for _, r := range rs {
			for _, v := range r.VCs {
				r.Ms += v.ms
			}
		}
		res = append(res, rs...)
	}
	if *jout != "" {
		writeJSON(*jout, res)
	}
	bad := 0
	for _, r := range res {
		if r.Err != "" {
			fmt.Printf("%s/%s: ERROR %s\n", r.Fn, r.Behavior, r.Err)
			bad++
			continue
		}
		f := r.failed()
		fmt.Printf("%s/%s: %d obligations, %d failed, %d invariants, %d ms\n", r.Fn, r.Behavior, len(r.VCs), len(f), len(r.Invs), r.Ms)
		for _, v := range f {
			fmt.Printf("    FAIL %s %s [%s] %s (%dms)\n", v.pos, v.kind, v.status, v.name, v.ms)
			bad++
		}
		if *list {
			for _, v := range r.VCs {
				fmt.Printf("    %s %s %s %s %s %dms\n", v.status, v.pos, v.kind, v.name, v.solver, v.ms)
			}
		}
		if verbose {
			for _, c := range r.Invs {
				fmt.Printf("    inv %s\n", c.key+" : "+c.text)
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type jsonOb struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos,omitempty"`
	Status string `json:"status"`
	Solver string `json:"solver,omitempty"`
	Ms     int64  `json:"ms"`
}

type jsonFn struct {
	Fn       string   `json:"fn"`
	Behavior string   `json:"behavior"`
	Err      string   `json:"error,omitempty"`
	Obs      []jsonOb `json:"obligations"`
	Invs     int      `json:"invariants"`
	Called   []string `json:"calls_by_contract,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
	Dropped  []string `json:"dropped_contract_invariants,omitempty"`
	Ms       int64    `json:"ms"`
}

func writeJSON(file string, res []*FnResult) {
	var out struct {
		Fns     []jsonFn `json:"functions"`
		Assumed []string `json:"external"`
		Axioms  []string `json:"axioms"`
	}
	seen := map[string]bool{}
	for _, r := range res {
		j := jsonFn{Fn: r.Fn, Behavior: r.Behavior, Err: r.Err, Invs: len(r.Invs), Ms: r.Ms}
		for _, v := range r.VCs {
			j.Obs = append(j.Obs, jsonOb{v.name, v.kind, v.pos, v.status, v.solver, v.ms})
		}
		if r.Exec != nil {
			for _, c := range r.Exec.candL {
				if c.dropped && !c.auto {
					j.Dropped = append(j.Dropped, c.key+": "+c.text)
				}
			}
			for a := range r.Exec.extern {
				seen[a] = true
			}
			j.Called = sortedKeys(r.Exec.called)
			j.Inlined = sortedKeys(r.Exec.inlined)
		}
		out.Fns = append(out.Fns, j)
	}
	out.Assumed = sortedKeys(seen)
	for _, a := range theSpec.axioms {
		out.Axioms = append(out.Axioms, a.name)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(file, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
