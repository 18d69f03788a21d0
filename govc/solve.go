package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- SMT emission -----------------------------------------------------------

func seqPrelude(s Sort) string {
	e := elemSort[s]
	r := strings.NewReplacer("$S", string(s), "$E", string(e), "$Z", ZeroOf(e).String())
	return r.Replace(`(declare-fun len_$S ($S) Int)
(declare-fun at_$S ($S Int) $E)
(declare-fun sub_$S ($S Int Int) $S)
(declare-fun cat_$S ($S $S) $S)
(declare-fun unit_$S ($E) $S)
(declare-fun upd_$S ($S Int $E) $S)
(declare-fun zeros_$S (Int) $S)
(declare-const empty_$S $S)
(assert (forall ((s $S)) (! (>= (len_$S s) 0) :pattern ((len_$S s)))))
(assert (= (len_$S empty_$S) 0))
(assert (forall ((s $S)) (! (=> (= (len_$S s) 0) (= s empty_$S)) :pattern ((len_$S s)))))
(assert (forall ((e $E)) (! (and (= (len_$S (unit_$S e)) 1) (= (at_$S (unit_$S e) 0) e)) :pattern ((unit_$S e)))))
(assert (forall ((a $S) (b $S)) (! (= (len_$S (cat_$S a b)) (+ (len_$S a) (len_$S b))) :pattern ((cat_$S a b)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (= (at_$S (cat_$S a b) i) (ite (< i (len_$S a)) (at_$S a i) (at_$S b (- i (len_$S a))))) :pattern ((at_$S (cat_$S a b) i)))))
(assert (forall ((s $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s))) (= (len_$S (sub_$S s i j)) (- j i))) :pattern ((sub_$S s i j)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s)) (<= 0 k) (< k (- j i))) (= (at_$S (sub_$S s i j) k) (at_$S s (+ i k)))) :pattern ((at_$S (sub_$S s i j) k)))))
(assert (forall ((s $S) (i Int) (v $E)) (! (= (len_$S (upd_$S s i v)) (len_$S s)) :pattern ((upd_$S s i v)))))
(assert (forall ((s $S) (i Int) (v $E) (k Int)) (! (= (at_$S (upd_$S s i v) k) (ite (and (= k i) (<= 0 i) (< i (len_$S s))) v (at_$S s k))) :pattern ((at_$S (upd_$S s i v) k)))))
(assert (forall ((n Int)) (! (=> (>= n 0) (= (len_$S (zeros_$S n)) n)) :pattern ((zeros_$S n)))))
(assert (forall ((n Int) (k Int)) (! (= (at_$S (zeros_$S n) k) $Z) :pattern ((at_$S (zeros_$S n) k)))))
`)
}

var baseSorts = []Sort{SRef, SErr, SFlt, SAny, SFn, SMap, SMapC}
var seqSorts = []Sort{SSeq, SSeqB, SSeqI, SSeqS, SSeqF, SSeqA, SSeqR}

func declareBuiltins() {
	Declare("emsg", SSeq, SErr)
	Declare("mempty", SMapC)
	Declare("mput", SMapC, SMapC, SSeq, SSeq)
	Declare("itoa", SSeq, SInt)
	Declare("fmtint", SSeq, SInt, SInt)
	Declare("fmtflt", SSeq, SFlt)
	Declare("fmtfltg", SSeq, SFlt, SInt, SInt, SInt)
	Declare("atoi", SInt, SSeq)
	Declare("atoiok", SBool, SSeq)
	Declare("pint", SInt, SSeq, SInt)
	Declare("pintok", SBool, SSeq, SInt, SInt)
	Declare("pflt", SFlt, SSeq)
	Declare("pfltok", SBool, SSeq)
	Declare("pfltokb", SBool, SSeq, SInt)
	Declare("sprintv", SSeq, SAny)
	for _, s := range []Sort{SInt, SBool, SSeq, SFlt, SErr, SRef, SAny, SSeqS, SSeqI, SSeqB, SSeqF, SSeqA} {
		Declare("box_"+string(s), SAny, s)
	}
}

// what a term mentions
func mentioned(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		mentioned(a, seen, f)
	}
	for _, tr := range t.trigs {
		for _, a := range tr {
			mentioned(a, seen, f)
		}
	}
	for _, b := range t.bvars {
		mentioned(b, seen, f)
	}
}

func trigFns(t *Term) []map[string]bool {
	if t.op != "forall" {
		return nil
	}
	var r []map[string]bool
	for _, tr := range t.trigs {
		m := map[string]bool{}
		for _, a := range tr {
			for f := range a.functions() {
				m[f] = true
			}
		}
		r = append(r, m)
	}
	return r
}

// selectAxioms closes the function set under the axioms whose triggers it covers.
func selectAxioms(fs map[string]bool, ax []*Term) []*Term {
	var out []*Term
	used := make([]bool, len(ax))
	for ch := true; ch; {
		ch = false
		for i, a := range ax {
			if used[i] {
				continue
			}
			ok := false
			tf := trigFns(a)
			if len(tf) == 0 {
				// ground or trigger-less: any shared function
				for f := range a.functions() {
					if fs[f] {
						ok = true
					}
				}
			}
			for _, m := range tf {
				all := true
				for f := range m {
					if !fs[f] {
						all = false
					}
				}
				if all {
					ok = true
				}
			}
			if ok {
				used[i] = true
				ch = true
				out = append(out, a)
				for f := range a.functions() {
					fs[f] = true
				}
			}
		}
	}
	return out
}

func splitForall(ts []*Term) []*Term {
	return ts
}

// smt builds the query: facts and the negated goal.
func smt(facts []*Term, goal *Term, ax []*Term) string {
	fs := map[string]bool{}
	for _, f := range facts {
		for n := range f.functions() {
			fs[n] = true
		}
	}
	for n := range goal.functions() {
		fs[n] = true
	}
	axs := selectAxioms(fs, ax)
	all := append(append([]*Term{}, axs...), facts...)
	neg := skolemNeg(goal)
	all = append(all, neg...)
	// extensionality instances
	eqs := map[*Term]bool{}
	sn := map[*Term]bool{}
	for _, t := range append(append([]*Term{}, facts...), neg...) {
		seqEqs(t, sn, eqs)
	}
	// the same for the paths handed to one function: f(p) and f(q) agree when p and q do
	groups := map[string][]*Term{}
	sn = map[*Term]bool{}
	for _, t := range append(append([]*Term{}, facts...), neg...) {
		pathArgs(t, sn, groups)
	}
	for _, g := range groups {
		sort.Slice(g, func(i, j int) bool { return g[i].id < g[j].id })
		if len(g) > 6 {
			g = g[len(g)-6:]
		}
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				if e := Eq(g[i], g[j]); e.op == "=" {
					eqs[e] = true
				}
			}
		}
	}
	var el []*Term
	for e := range eqs {
		el = append(el, e)
	}
	sort.Slice(el, func(i, j int) bool { return el[i].id < el[j].id })
	var exts []*Term
	for i, e := range el {
		a, b := e.args[0], e.args[1]
		k := Var(fmt.Sprintf("ext!%d", i), SInt)
		exts = append(exts, Or(e, Not(Eq(SeqLen(a), SeqLen(b))), And(Le(I(0), k), Lt(k, SeqLen(a)), Not(Eq(SeqAt(a, k), SeqAt(b, k))))))
	}
	all = append(all, exts...)
	vars := map[string]Sort{}
	lits := map[string]*Term{}
	funs := map[string]bool{}
	sorts := map[Sort]bool{}
	seen := map[*Term]bool{}
	addSort := func(s Sort) {
		if strings.HasPrefix(string(s), "(Array") {
			for _, f := range strings.Fields(strings.Trim(string(s), "()"))[1:] {
				sorts[Sort(f)] = true
			}
			return
		}
		sorts[s] = true
	}
	for _, t := range all {
		mentioned(t, seen, func(t *Term) {
			addSort(t.sort)
			switch t.op {
			case "var":
				vars[t.name] = t.sort
			case "lit":
				lits[t.name] = t
				sorts[SSeq] = true
			case "app":
				funs[t.name] = true
				for _, a := range C.funs[t.name].args {
					addSort(a)
				}
				addSort(C.funs[t.name].ret)
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for s := range sorts {
			if e, ok := elemSort[s]; ok && !sorts[e] {
				sorts[e] = true
				ch = true
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	for _, s := range baseSorts {
		if sorts[s] {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
			z := ZeroOf(s)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", mangle(z.name), s)
			delete(vars, z.name)
		}
	}
	for _, s := range seqSorts {
		if sorts[s] {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
		}
	}
	for _, s := range seqSorts {
		if sorts[s] {
			sb.WriteString(seqPrelude(s))
		}
	}
	if sorts[SSeq] {
		sb.WriteString("(assert (forall ((s Byt) (i Int)) (! (and (<= 0 (at_Byt s i)) (< (at_Byt s i) 256)) :pattern ((at_Byt s i)))))\n")
	}
	var ln []string
	for n := range lits {
		if n != "" {
			ln = append(ln, n)
		}
	}
	sort.Strings(ln)
	for _, n := range ln {
		nm := litName(lits[n])
		fmt.Fprintf(&sb, "(declare-const %s Byt)\n(assert (= (len_Byt %s) %d))\n", nm, nm, len(n))
		for k := 0; k < len(n); k++ {
			fmt.Fprintf(&sb, "(assert (= (at_Byt %s %d) %d))\n", nm, k, n[k])
		}
	}
	var fl []string
	for n := range funs {
		fl = append(fl, n)
	}
	sort.Strings(fl)
	for _, n := range fl {
		d := C.funs[n]
		fmt.Fprintf(&sb, "(declare-fun %s (", mangle(n))
		for i, a := range d.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", d.ret)
	}
	if funs["itoa"] {
		sb.WriteString("(assert (forall ((i Int)) (! (>= (len_Byt (itoa i)) 1) :pattern ((itoa i)))))\n")
		if funs["atoi"] || funs["atoiok"] {
			if !funs["atoi"] {
				sb.WriteString("(declare-fun atoi (Byt) Int)\n")
			}
			if !funs["atoiok"] {
				sb.WriteString("(declare-fun atoiok (Byt) Bool)\n")
			}
			sb.WriteString("(assert (forall ((i Int)) (! (and (atoiok (itoa i)) (= (atoi (itoa i)) i)) :pattern ((itoa i)))))\n")
		}
	}
	var vl []string
	for n := range vars {
		vl = append(vl, n)
	}
	sort.Strings(vl)
	for _, n := range vl {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", mangle(n), vars[n])
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		t.write(&sb)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// skolemNeg negates the goal, replacing outer universal quantifiers by constants.
func skolemNeg(g *Term) []*Term {
	switch g.op {
	case "=>":
		return append([]*Term{g.args[0]}, skolemNeg(g.args[1])...)
	case "forall":
		m := map[*Term]*Term{}
		for i, b := range g.bvars {
			m[b] = Var(fmt.Sprintf("sk!%d!%s", i, strings.SplitN(b.name, "!", 2)[0]), b.sort)
			_ = i
		}
		// distinct names per quantifier
		for b, v := range m {
			m[b] = Var(fmt.Sprintf("%s!q%d", v.name, g.id), b.sort)
		}
		return skolemNeg(subst(g.args[0], m))
	case "or":
		var r []*Term
		for _, a := range g.args {
			r = append(r, skolemNeg(a)...)
		}
		return r
	}
	return []*Term{Not(g)}
}

// ---- running solvers ----------------------------------------------------------

type Solver struct {
	name string
	cmd  []string
}

var workDir string
var solveStat struct {
	queries, unsat int64
	ms             int64
	by             sync.Map
}
var dumpDir = os.Getenv("GOVC_DUMP")

// slots: at most this many solver processes at a time
var slots = make(chan struct{}, 8)

func runSolver(parent context.Context, q string, cmd []string, tmo time.Duration) (string, int64) {
	select {
	case slots <- struct{}{}:
		defer func() { <-slots }()
	case <-parent.Done():
		return "timeout", 0
	}
	ctx, cancel := context.WithTimeout(parent, tmo+2*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, cmd[0], cmd[1:]...)
	c.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	c.Stdout = &out
	t0 := time.Now()
	c.Run()
	ms := time.Since(t0).Milliseconds()
	s := strings.TrimSpace(out.String())
	atomic.AddInt64(&solveStat.queries, 1)
	atomic.AddInt64(&solveStat.ms, ms)
	first := strings.SplitN(s, "\n", 2)[0]
	for _, l := range strings.Split(s, "\n") { // cvc5 answers "unsupported" to z3's options
		if l != "unsupported" {
			first = l
			break
		}
	}
	if first == "unsat" || first == "sat" || first == "unknown" {
		return first, ms
	}
	if strings.Contains(s, "error") {
		return "error: " + s, ms
	}
	return "timeout", ms
}

var cacheMu sync.Mutex
var qcache = map[[20]byte]string{}

// prove tries to discharge one query. level 0: quick (invariant candidates); 1: full.
func prove(q string, level int, tmo int) (string, string, int64) {
	h := sha1.Sum([]byte(q))
	cacheMu.Lock()
	if r, ok := qcache[h]; ok {
		cacheMu.Unlock()
		return "unsat", r, 0
	}
	cacheMu.Unlock()
	type st struct {
		name string
		cmd  []string
		d    int
	}
	z := func(bin string, d int, extra ...string) st {
		if slow > 1 { // GOVC_SLOW: more time per query
			d *= slow
		}
		return st{bin, append([]string{bin, "-in", fmt.Sprintf("-T:%d", d)}, extra...), d}
	}
	cvc := func(d int) st {
		if slow > 1 {
			d *= slow
		}
		return st{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", d*1000)}, d}
	}
	max := func(a, b int) int {
		if a > b {
			return a
		}
		return b
	}
	// the solvers of a stage race; the next stage runs when none of them has a proof
	var plan [][]st
	switch level {
	case 0:
		plan = [][]st{{z("z3", max(2, tmo))}}
	case 2:
		d := max(4, tmo)
		plan = [][]st{{z("z3", 1)}, {z("z3-new", d), z("z3-new", d, "smt.arith.solver=2"), z("z3", d), cvc(d / 2)}}
	default:
		d := max(5, tmo)
		plan = [][]st{{z("z3", 1)}, {z("z3-new", d), z("z3-new", d, "smt.arith.solver=2"), z("z3", d)}, {cvc(d), z("z3", d*2, "smt.random_seed=7", "smt.arith.solver=2"), z("z3", d, "smt.relevancy=0"), z("z3-new", d*3, "smt.random_seed=3")}}
	}
	var total int64
	res := "unknown"
	type answer struct {
		r, name string
		ms      int64
	}
	for _, stage := range plan {
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan answer, len(stage))
		for _, p := range stage {
			go func(p st) {
				r, ms := runSolver(ctx, q, p.cmd, time.Duration(p.d)*time.Second)
				ch <- answer{r, p.name, ms}
			}(p)
		}
		won := ""
		bad := answer{}
		for range stage {
			a := <-ch
			total += a.ms
			if won != "" {
				continue
			}
			switch {
			case a.r == "unsat":
				won = a.name
				cancel()
			case strings.HasPrefix(a.r, "error"):
				if a.name != "cvc5" {
					bad = a
				}
			default:
				res = a.r
			}
		}
		cancel()
		if won != "" {
			cacheMu.Lock()
			qcache[h] = won
			cacheMu.Unlock()
			v, _ := solveStat.by.LoadOrStore(won, new(int64))
			atomic.AddInt64(v.(*int64), 1)
			return "unsat", won, total
		}
		if bad.r != "" {
			return bad.r, bad.name, total
		}
	}
	return res, "", total
}

func parallel(n int, f func(i int)) {
	w := workers
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

var workers = 8

// keepInv (debugging): contract invariants that are established are kept even if some iteration breaks them; the
// failures are reported and the function counts as not verified.
var keepInv bool
var slow, _ = strconv.Atoi(os.Getenv("GOVC_SLOW"))

// ---- a function's obligations ----------------------------------------------------

type FnResult struct {
	Fn, Behavior string
	VCs          []*VC
	Invs         []*Cand
	Err          string
	Loops        int
	Exec         *Exec
	Ms           int64
}

func (r *FnResult) failed() []*VC {
	var f []*VC
	for _, v := range r.VCs {
		if v.status != "proved" && v.status != "trivial" {
			f = append(f, v)
		}
	}
	return f
}

func (x *Exec) factsFor(v *VC) []*Term {
	anc := v.node.ancestors(x.nodes)
	var fs []*Term
	for _, n := range x.nodes {
		if n.id == v.node.id || anc[n.id/64]&(1<<uint(n.id%64)) == 0 {
			continue
		}
		fs = append(fs, n.facts...)
	}
	nf := v.nfacts
	if nf > len(v.node.facts) {
		nf = len(v.node.facts)
	}
	fs = append(fs, v.node.facts[:nf]...)
	return x.enabledFacts(fs)
}

func (x *Exec) enabledFacts(fs []*Term) []*Term {
	out := fs[:0:0]
	for _, f := range fs {
		if f.op == "=>" && f.args[0].op == "var" && strings.HasPrefix(f.args[0].name, "en!") {
			if x.enabled(f.args[0]) {
				out = append(out, f.args[1])
			}
			continue
		}
		out = append(out, f)
	}
	return out
}

func (x *Exec) enabled(en *Term) bool {
	for _, c := range x.candL {
		if c.en == en {
			return !c.dropped
		}
	}
	return false
}

var emitMu sync.Mutex

func (x *Exec) query(v *VC, goal *Term, ax []*Term) string {
	emitMu.Lock()
	defer emitMu.Unlock()
	return smt(x.factsFor(v), goal, ax)
}

// piece: one way to reach an obligation. own: nodes taken from the obligation backwards (their facts are included);
// head: the earliest of them that is still to be split; assume: the edges chosen so far.
type piece struct {
	own    []*Node
	head   *Node
	assume []*Term
}

// split refines a piece at the nearest merge behind its head: one piece per incoming edge. Proving the goal on each
// of them proves it: the goal is guarded by the path condition, which is the disjunction of the edges.
func (p piece) split() []piece {
	own := append([]*Node{}, p.own...)
	n := p.head
	for len(n.conds) < 2 {
		if len(n.preds) != 1 || n.loop {
			return nil
		}
		n = n.preds[0]
		own = append(own, n)
	}
	var r []piece
	for i, q := range n.preds {
		r = append(r, piece{append(append([]*Node{}, own...), q), q, append(append([]*Term{}, p.assume...), n.conds[i])})
	}
	return r
}

func (x *Exec) pieceQuery(v *VC, p piece, ax []*Term) string {
	emitMu.Lock()
	defer emitMu.Unlock()
	in := map[int]bool{}
	for _, n := range p.own {
		in[n.id] = true
	}
	anc := p.head.ancestors(x.nodes)
	var fs []*Term
	for _, n := range x.nodes {
		if n == v.node || !in[n.id] && anc[n.id/64]&(1<<uint(n.id%64)) == 0 {
			continue
		}
		fs = append(fs, n.facts...)
	}
	nf := v.nfacts
	if nf > len(v.node.facts) {
		nf = len(v.node.facts)
	}
	fs = append(fs, v.node.facts[:nf]...)
	return smt(append(x.enabledFacts(fs), p.assume...), v.goal, ax)
}

// proveVC discharges an obligation, path by path if it resists as a whole.
func (x *Exec) proveVC(v *VC, ax []*Term, tmo int) (string, string, int64) {
	root := piece{[]*Node{v.node}, v.node, nil}
	parts := root.split()
	if len(parts) == 0 {
		return prove(x.query(v, v.goal, ax), 1, tmo)
	}
	r, s, ms := prove(x.query(v, v.goal, ax), 2, tmo)
	if r == "unsat" || strings.HasPrefix(r, "error") {
		return r, s, ms
	}
	return x.provePieces(v, parts, ax, tmo, 1, ms)
}

func (x *Exec) provePieces(v *VC, parts []piece, ax []*Term, tmo, depth int, total int64) (string, string, int64) {
	by := ""
	for _, p := range parts {
		q := x.pieceQuery(v, p, ax)
		sub := p.split()
		lv := 1
		if len(sub) > 0 && depth < 4 {
			lv = 2
		}
		r, s, ms := prove(q, lv, tmo)
		total += ms
		if r != "unsat" && lv == 2 && !strings.HasPrefix(r, "error") {
			r, s, total = x.provePieces(v, sub, ax, tmo, depth+1, total)
		} else if r != "unsat" {
			if verbose && (v.cand == nil || v.kind == "inv-keep") {
				fmt.Fprintf(os.Stderr, "      path %d of %s %s:", depth, v.name, v.pos)
				for _, a := range p.assume {
					fmt.Fprintf(os.Stderr, " %s", a)
				}
				fmt.Fprintln(os.Stderr)
				dump(x.con.name, fmt.Sprintf("path_%s_%d", v.kind, p.head.id), q)
			}
		}
		if r != "unsat" {
			return r, s, total
		}
		if by == "" {
			by = s
		}
	}
	return "unsat", by, total
}

func (x *Exec) axioms() []*Term {
	return x.spec.axiomTerms(x.uses, -1)
}

func dump(fn, tag, q string) {
	if dumpDir == "" {
		return
	}
	os.MkdirAll(dumpDir, 0755)
	os.WriteFile(filepath.Join(dumpDir, strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' || r == '>' {
			return '_'
		}
		return r
	}, fn+"_"+tag+".smt2")), []byte(q), 0644)
}

// houdini drops candidate invariants until the rest are inductive.
func (x *Exec) houdini() {
	ax := x.axioms()
	for round := 0; ; round++ {
		// group by node
		type grp struct {
			vcs []*VC
		}
		groups := map[string]*grp{}
		var keys []string
		for _, v := range x.vcs {
			if v.cand == nil || v.cand.dropped || v.status == "trivial" || v.status == "kept" {
				continue
			}
			k := fmt.Sprintf("%d/%s", v.node.id, v.kind)
			g := groups[k]
			if g == nil {
				g = &grp{}
				groups[k] = g
				keys = append(keys, k)
			}
			g.vcs = append(g.vcs, v)
		}
		var drops []*Cand
		var mu sync.Mutex
		failedG := make([]bool, len(keys))
		if round > 0 {
			parallel(len(keys), func(i int) {
				g := groups[keys[i]]
				if len(g.vcs) < 2 {
					failedG[i] = true
					return
				}
				var goals []*Term
				for _, v := range g.vcs {
					goals = append(goals, v.goal)
				}
				emitMu.Lock()
				goal := And(goals...)
				emitMu.Unlock()
				q := x.query(g.vcs[0], goal, ax)
				r, s, ms := prove(q, 0, 2)
				if r == "unsat" {
					for _, v := range g.vcs {
						v.status, v.solver = "proved", s
						v.ms = ms / int64(len(g.vcs))
					}
				} else {
					failedG[i] = true
				}
			})
		} else {
			for i := range failedG {
				failedG[i] = true
			}
		}
		var todo []*VC
		for i, k := range keys {
			if failedG[i] {
				todo = append(todo, groups[k].vcs...)
			}
		}
		parallel(len(todo), func(i int) {
			v := todo[i]
			mu.Lock()
			if v.cand.dropped || x.hinted && len(drops) > 0 {
				mu.Unlock()
				return
			}
			mu.Unlock()
			lv := 0
			if !v.cand.auto {
				lv = 1
			}
			q := x.query(v, v.goal, ax)
			var r, s string
			var ms int64
			if lv == 1 {
				r, s, ms = x.proveVC(v, ax, x.con.timeout)
			} else {
				r, s, ms = prove(q, lv, x.con.timeout)
			}
			if r == "unsat" {
				v.status, v.solver, v.ms = "proved", s, ms
				return
			}
			if strings.HasPrefix(r, "error") {
				fmt.Fprintf(os.Stderr, "solver error on %s: %s\n", v.name, r)
				dump(x.con.name, "error", q)
			}
			if !v.cand.auto {
				dump(x.con.name, fmt.Sprintf("cand_%s_%s_%d", v.cand.beh, v.kind, i), q)
			}
			if keepInv && !v.cand.auto && v.kind == "inv-keep" {
				fmt.Fprintf(os.Stderr, "  [%s/%s] NOT KEPT (%s, %dms): %s\n", x.con.name, x.bname(), r, ms, v.name)
				v.status = "kept"
				x.diagnose(v, ax)
				return
			}
			mu.Lock()
			drops = append(drops, v.cand)
			if verbose && !v.cand.auto {
				fmt.Fprintf(os.Stderr, "  [%s/%s] round %d drops (%s, %s, %dms): %s\n", x.con.name, x.bname(), round, v.kind, r, ms, v.name)
			}
			mu.Unlock()
		})
		if len(drops) == 0 {
			return
		}
		if x.hinted {
			x.aborted = true
			return
		}
		for _, c := range drops {
			c.dropped = true
		}
	}
}

func (x *Exec) bname() string {
	if x.isBase {
		return "base"
	}
	return x.beh.name
}

func (x *Exec) solve() *FnResult {
	t0 := time.Now()
	r := &FnResult{Fn: x.con.name, Behavior: x.bname(), Exec: x}
	x.houdini()
	if x.aborted {
		return r
	}
	ax := x.axioms()
	var todo []*VC
	covers := 0
	for _, v := range x.vcs {
		if v.cand != nil {
			if !v.cand.dropped {
				r.VCs = append(r.VCs, v)
			}
			continue
		}
		if v.kind == "cover" {
			covers++
			continue
		}
		r.VCs = append(r.VCs, v)
		if v.status == "" {
			todo = append(todo, v)
		}
	}
	parallel(len(todo), func(i int) {
		v := todo[i]
		s, by, ms := x.proveVC(v, ax, x.con.timeout)
		v.ms, v.solver = ms, by
		if s == "unsat" {
			v.status = "proved"
			if dumpDir != "" && ms > 3000 {
				dump(x.con.name, fmt.Sprintf("slow_%s_%s_%d", x.bname(), v.kind, i), x.query(v, v.goal, ax))
			}
		} else {
			v.status = s
			if dumpDir != "" {
				dump(x.con.name, fmt.Sprintf("%s_%s_%d", x.bname(), v.kind, i), x.query(v, v.goal, ax))
			}
			x.diagnose(v, ax)
		}
	})
	// termination measures: one alternative must descend on every back edge
	parallel(len(x.meas), func(i int) {
		m := x.meas[i]
		var best []*VC
		for _, alt := range m.alts {
			ok := true
			for _, v := range alt {
				q := x.query(v, v.goal, ax)
				s, by, ms := prove(q, 0, 3)
				v.solver, v.ms = by, ms
				if s != "unsat" {
					v.status = s
					ok = false
					break
				}
				v.status = "proved"
			}
			if ok {
				best = alt
				break
			}
		}
		emitMu.Lock()
		defer emitMu.Unlock()
		if best == nil {
			r.VCs = append(r.VCs, &VC{name: m.loop + " terminates: no measure found", kind: "term", status: "unknown", pos: m.pos})
		} else {
			r.VCs = append(r.VCs, best...)
		}
	})
	// vacuity: some return must not be provably unreachable
	if covers > 0 {
		reach := int32(0)
		var cv []*VC
		for _, v := range x.vcs {
			if v.kind == "cover" {
				cv = append(cv, v)
			}
		}
		parallel(len(cv), func(i int) {
			if cv[i].status == "trivial" {
				return
			}
			if atomic.LoadInt32(&reach) > 0 && len(cv) > 4 {
				return
			}
			q := x.query(cv[i], cv[i].goal, ax)
			s, _ := runSolver(context.Background(), q, []string{"z3", "-in", "-T:2"}, 2*time.Second)
			if s != "unsat" {
				atomic.AddInt32(&reach, 1)
			}
		})
		v := &VC{name: "assumptions are consistent: some return is reachable", kind: "cover", status: "proved"}
		if reach == 0 {
			v.status = "vacuous"
		}
		r.VCs = append(r.VCs, v)
	}
	for _, c := range x.candL {
		if !c.dropped {
			r.Invs = append(r.Invs, c)
		}
	}
	r.Ms = time.Since(t0).Milliseconds()
	return r
}

// diagnose (debugging) reports which conjuncts of a failed goal fail
func (x *Exec) diagnose(v *VC, ax []*Term) {
	if !verbose {
		return
	}
	emitMu.Lock()
	var parts []*Term
	var pre []*Term
	g := v.goal
	for g.op == "=>" {
		pre = append(pre, g.args[0])
		g = g.args[1]
	}
	if g.op == "or" {
		for i, a := range g.args {
			if a.op == "and" {
				rest := append(append([]*Term{}, g.args[:i]...), g.args[i+1:]...)
				for _, b := range a.args {
					parts = append(parts, Implies(And(pre...), Or(append(append([]*Term{}, rest...), b)...)))
				}
				break
			}
		}
	}
	if g.op == "and" {
		for _, a := range g.args {
			parts = append(parts, Implies(And(pre...), a))
		}
	}
	emitMu.Unlock()
	var qs []string
	for _, p := range parts {
		qs = append(qs, x.query(v, p, ax))
	}
	for i, q := range qs {
		r, _, ms := prove(q, 1, 5)
		if r != "unsat" {
			fmt.Fprintf(os.Stderr, "      part %d (%s, %d ms) of %s %s: %s\n", i, r, ms, v.name, v.pos, trunc(parts[i].String(), 600))
			dump(x.con.name, fmt.Sprintf("part%d_%s_%s", i, v.kind, strings.Map(func(r rune) rune { if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' { return r }; return '_' }, trunc(v.name+v.pos, 60))), q)
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
