// ---- the JSON grammar: a pushdown automaton over the bytes of a document -----------------------------------
// st(s,i): state before byte i
//   0 a value must follow     1 just after [ (value or ])   2 just after { (key or })   3 a key must follow
//   4 a colon must follow     5 after a value               7 in a string value         8 ... after a backslash
//   9 in a number/literal    10 in a key                   11 ... after a backslash    12 error
// dp(s,i): open containers before byte i;  op(s,i,d): where the container of depth d was opened;
// cx(s,i,d): its commas so far;  ks/ke(s,i): text of the last key;  vs(s,i): start of the last string or scalar
logic st(s: seq, i: int): int
logic dp(s: seq, i: int): int
logic op(s: seq, i: int, d: int): int
logic cx(s: seq, i: int, d: int): int
logic ks(s: seq, i: int): int
logic ke(s: seq, i: int): int
logic vs(s: seq, i: int): int

def tok(c) = !ws(c) && c != 44 && c != 93 && c != 125 && c != 91 && c != 123 && c != 34 && c != 58 && c != 92
def inkey(x) = x == 10 || x == 11
def instr(x) = x == 7 || x == 8 || x == 10 || x == 11
def esc(x) = x == 8 || x == 11
def vpos(x) = x == 0 || x == 1
def endv(x) = x == 5 || x == 9
def opn(s, i) = vpos(st(s, i)) && (s[i] == 91 || s[i] == 123)
def top(s, i) = s[op(s, i, dp(s, i))]
def shut(s, i) = (st(s, i) == 1 && s[i] == 93) || (st(s, i) == 2 && s[i] == 125) || (endv(st(s, i)) && dp(s, i) >= 1 && (s[i] == 93 && top(s, i) == 91 || s[i] == 125 && top(s, i) == 123))

axiom st0: forall s: seq {st(s, 0)} {dp(s, 0)} :: st(s, 0) == 0 && dp(s, 0) == 0
axiom stV: forall s: seq, i: int {st(s, i), s[i]} :: 0 <= i && i < len(s) && vpos(st(s, i)) ==>
   (ws(s[i]) ==> st(s, i+1) == st(s, i)) && (s[i] == 91 ==> st(s, i+1) == 1) && (s[i] == 123 ==> st(s, i+1) == 2) && (s[i] == 34 ==> st(s, i+1) == 7) && (tok(s[i]) ==> st(s, i+1) == 9)
   && (s[i] == 93 && st(s, i) == 1 ==> st(s, i+1) == 5) && (s[i] == 93 && st(s, i) == 0 ==> st(s, i+1) == 12) && (s[i] == 44 || s[i] == 58 || s[i] == 92 || s[i] == 125 ==> st(s, i+1) == 12)
axiom stK: forall s: seq, i: int {st(s, i), s[i]} :: 0 <= i && i < len(s) && (st(s, i) == 2 || st(s, i) == 3) ==>
   (ws(s[i]) ==> st(s, i+1) == st(s, i)) && (s[i] == 34 ==> st(s, i+1) == 10) && (s[i] == 125 && st(s, i) == 2 ==> st(s, i+1) == 5) && (s[i] == 125 && st(s, i) == 3 ==> st(s, i+1) == 12)
   && (!ws(s[i]) && s[i] != 34 && s[i] != 125 ==> st(s, i+1) == 12)
axiom stC: forall s: seq, i: int {st(s, i), s[i]} :: 0 <= i && i < len(s) && st(s, i) == 4 ==>
   (ws(s[i]) ==> st(s, i+1) == 4) && (s[i] == 58 ==> st(s, i+1) == 0) && (!ws(s[i]) && s[i] != 58 ==> st(s, i+1) == 12)
axiom stA: forall s: seq, i: int {st(s, i), s[i]} :: 0 <= i && i < len(s) && endv(st(s, i)) ==>
   (ws(s[i]) ==> st(s, i+1) == 5) && (s[i] == 44 && dp(s, i) >= 1 && top(s, i) == 123 ==> st(s, i+1) == 3) && (s[i] == 44 && dp(s, i) >= 1 && top(s, i) != 123 ==> st(s, i+1) == 0) && (s[i] == 44 && dp(s, i) < 1 ==> st(s, i+1) == 12)
   && (shut(s, i) ==> st(s, i+1) == 5) && ((s[i] == 93 || s[i] == 125) && !shut(s, i) ==> st(s, i+1) == 12)
   && (tok(s[i]) && st(s, i) == 9 ==> st(s, i+1) == 9) && (tok(s[i]) && st(s, i) == 5 ==> st(s, i+1) == 12) && (s[i] == 91 || s[i] == 123 || s[i] == 34 || s[i] == 58 || s[i] == 92 ==> st(s, i+1) == 12)
axiom stS: forall s: seq, i: int {st(s, i), s[i]} :: 0 <= i && i < len(s) ==>
   (st(s, i) == 7 ==> (s[i] == 34 ==> st(s, i+1) == 5) && (s[i] == 92 ==> st(s, i+1) == 8 && 0 <= s[i+1]) && (s[i] != 34 && s[i] != 92 ==> st(s, i+1) == 7)) && (st(s, i) == 8 ==> st(s, i+1) == 7)
   && (st(s, i) == 10 ==> (s[i] == 34 ==> st(s, i+1) == 4) && (s[i] == 92 ==> st(s, i+1) == 11 && 0 <= s[i+1]) && (s[i] != 34 && s[i] != 92 ==> st(s, i+1) == 10)) && (st(s, i) == 11 ==> st(s, i+1) == 10)
axiom stE: forall s: seq, i: int {st(s, i), s[i]} :: 0 <= i && i < len(s) && (st(s, i) == 12 || st(s, i) < 0 || st(s, i) > 12 || st(s, i) == 6) ==> st(s, i+1) == 12
axiom dp1: forall s: seq, i: int {dp(s, i), s[i]} :: 0 <= i && i < len(s) ==>
   (opn(s, i) ==> dp(s, i+1) == dp(s, i)+1 && op(s, i+1, dp(s, i)+1) == i && cx(s, i+1, dp(s, i)+1) == 0) && (shut(s, i) ==> dp(s, i+1) == dp(s, i)-1) && (!opn(s, i) && !shut(s, i) ==> dp(s, i+1) == dp(s, i))
axiom op1: forall s: seq, i: int, d: int {op(s, i, d), s[i]} :: 0 <= i && i < len(s) && !(opn(s, i) && d == dp(s, i)+1) ==> op(s, i+1, d) == op(s, i, d)
axiom cx1: forall s: seq, i: int, d: int {cx(s, i, d), s[i]} :: 0 <= i && i < len(s) && !(opn(s, i) && d == dp(s, i)+1) ==>
   (endv(st(s, i)) && s[i] == 44 && d == dp(s, i) ==> cx(s, i+1, d) == cx(s, i, d)+1) && (!(endv(st(s, i)) && s[i] == 44 && d == dp(s, i)) ==> cx(s, i+1, d) == cx(s, i, d))
axiom ks1: forall s: seq, i: int {ks(s, i), s[i]} {ks(s, i+1), st(s, i)} :: 0 <= i && i < len(s) ==>
   ((st(s, i) == 2 || st(s, i) == 3) && s[i] == 34 ==> ks(s, i+1) == i+1) && (!((st(s, i) == 2 || st(s, i) == 3) && s[i] == 34) ==> ks(s, i+1) == ks(s, i))
axiom ke1: forall s: seq, i: int {ke(s, i), s[i]} {ke(s, i+1), st(s, i)} :: 0 <= i && i < len(s) ==>
   (st(s, i) == 10 && s[i] == 34 ==> ke(s, i+1) == i) && (!(st(s, i) == 10 && s[i] == 34) ==> ke(s, i+1) == ke(s, i))
axiom vs1: forall s: seq, i: int {vs(s, i), s[i]} {vs(s, i+1), st(s, i)} :: 0 <= i && i < len(s) ==>
   (vpos(st(s, i)) && (s[i] == 34 || tok(s[i])) ==> vs(s, i+1) == i) && (!(vpos(st(s, i)) && (s[i] == 34 || tok(s[i]))) ==> vs(s, i+1) == vs(s, i))

// a well-formed document (every JSON text is one; numbers and literals may be any run of other bytes)
logic wf(s: seq): bool
axiom wf1: forall s: seq {wf(s)} :: wf(s) == (dp(s, len(s)) == 0 && endv(st(s, len(s))))

lemma errstays(s: seq, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(s) && st(s, i) == 12
  ensures st(s, j) == 12
  case j > i ==> 0 <= s[j-1] && st(s, j-1) == 12
  induction j from i
  trigger {st(s, i), st(s, j)}

lemma noerr(s: seq, i: int)
  requires wf(s) && 0 <= i && i <= len(s)
  ensures st(s, i) != 12
  use errstays
  case st(s, i) == 12 ==> st(s, len(s)) == 12
  trigger {wf(s), st(s, i)}
  auto

// white space between tokens changes nothing
lemma blank(s: seq, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(s) && j <= nxs(s, i) && 0 <= st(s, i) && st(s, i) <= 5
  ensures st(s, j) == st(s, i) && dp(s, j) == dp(s, i)
  case j > i ==> 0 <= s[j-1] && ws(s[j-1])
  induction j from i
  trigger {st(s, i), st(s, j), nxs(s, i)}

lemma more(s: seq, i: int)
  requires wf(s) && 0 <= i && i <= len(s) && 0 <= st(s, i) && st(s, i) <= 4
  ensures nxs(s, i) < len(s) && st(s, nxs(s, i)) == st(s, i) && dp(s, nxs(s, i)) == dp(s, i)
  use blank
  case st(s, nxs(s, i)) == st(s, i) && dp(s, nxs(s, i)) == dp(s, i)
  case nxs(s, i) >= len(s) ==> endv(st(s, len(s)))
  trigger {wf(s), st(s, i), nxs(s, i)}
  auto

// kinds of the innermost container
lemma tops(s: seq, i: int)
  requires 0 <= i && i <= len(s)
  ensures dp(s, i) >= 0 && (st(s, i) == 1 ==> dp(s, i) >= 1 && top(s, i) == 91) && (st(s, i) == 2 || st(s, i) == 3 || st(s, i) == 4 || inkey(st(s, i)) ==> dp(s, i) >= 1 && top(s, i) == 123)
  case i > 0 ==> 0 <= s[i-1]
  induction i from 0
  trigger {st(s, i), dp(s, i)}
  auto

lemma ops(s: seq, i: int, d: int)
  requires 0 <= i && i <= len(s) && 1 <= d && d <= dp(s, i)
  ensures 0 <= op(s, i, d) && op(s, i, d) < i && isopen(s[op(s, i, d)])
  case i > 0 ==> 0 <= s[i-1]
  induction i from 0
  trigger {op(s, i, d)}
  auto

// bsl(s, i): the number of backslashes right before i
logic bsl(s: seq, i: int): int
axiom bsl0: forall s: seq, i: int {bsl(s, i)} :: 0 <= i && i <= len(s) ==> 0 <= bsl(s, i) && bsl(s, i) <= i && (bsl(s, i) < i ==> s[i-1-bsl(s, i)] != 92)
axiom bsl1: forall s: seq, i: int, j: int {bsl(s, i), s[j]} :: 0 <= i && i <= len(s) && i - bsl(s, i) <= j && j < i ==> s[j] == 92

lemma escaped(s: seq, i: int)
  requires 0 <= i && i <= len(s) && instr(st(s, i))
  ensures esc(st(s, i)) == (bsl(s, i) % 2 == 1)
  case i > 0 && s[i-1] == 92 ==> bsl(s, i) == bsl(s, i-1) + 1
  case i > 0 && s[i-1] != 92 ==> bsl(s, i) == 0
  case i > 0 ==> 0 <= s[i-1]
  induction i from 0
  trigger {st(s, i), bsl(s, i)}
  auto

lemma noesc(s: seq, i: int)
  requires wf(s) && 0 <= i && i <= len(s) && !instr(st(s, i))
  ensures bsl(s, i) == 0
  case i > 0 ==> st(s, i-1) != 12 && 0 <= s[i-1]
  trigger {wf(s), st(s, i), bsl(s, i)}
  auto

// keq(s, a, b, key): the bytes a..b of s are key
logic keq(s: seq, a: int, b: int, key: seq): bool
logic kdiff(s: seq, a: int, b: int, key: seq): int
axiom keq1: forall s: seq, a: int, b: int, key: seq {keq(s, a, b, key)} :: keq(s, a, b, key) ==> len(key) == b - a
axiom keq2: forall s: seq, a: int, b: int, key: seq, j: int {keq(s, a, b, key), key[j]} :: keq(s, a, b, key) && 0 <= j && j < len(key) ==> s[a+j] == key[j]
axiom keq3: forall s: seq, a: int, b: int, key: seq {keq(s, a, b, key)} :: !keq(s, a, b, key) ==> len(key) != b - a || (0 <= kdiff(s, a, b, key) && kdiff(s, a, b, key) < len(key) && s[a+kdiff(s, a, b, key)] != key[kdiff(s, a, b, key)])

// fst(s, u, d, key, i): in the container opened at u, of depth d, the first colon (object) or comma (array) below i
// behind which the value of key is found; -1 if there is none
def hit(s, u, d, key, i) = dp(s, i) == d && op(s, i, d) == u && ((s[u] == 123 && st(s, i) == 4 && s[i] == 58 && keq(s, ks(s, i), ke(s, i), key)) || (s[u] == 91 && endv(st(s, i)) && s[i] == 44 && atoiok(key) && atoi(key) == cx(s, i, d)+1))
logic fst(s: seq, u: int, d: int, key: seq, i: int): int
axiom fst0: forall s: seq, u: int, d: int, key: seq, i: int {fst(s, u, d, key, i)} :: (i <= u+1 ==> fst(s, u, d, key, i) == 0-1) && (fst(s, u, d, key, i) == 0-1 || u < fst(s, u, d, key, i) && fst(s, u, d, key, i) < i)
axiom fst1: forall s: seq, u: int, d: int, key: seq, i: int {fst(s, u, d, key, i), s[i]} :: 0 <= u && u < i && i < len(s) ==>
   (fst(s, u, d, key, i) >= 0 ==> fst(s, u, d, key, i+1) == fst(s, u, d, key, i)) && (fst(s, u, d, key, i) < 0 && hit(s, u, d, key, i) ==> fst(s, u, d, key, i+1) == i) && (fst(s, u, d, key, i) < 0 && !hit(s, u, d, key, i) ==> fst(s, u, d, key, i+1) == 0-1)

lemma fststays(s: seq, u: int, d: int, key: seq, i: int, j: int)
  requires 0 <= u && i <= j && j <= len(s) && fst(s, u, d, key, i) >= 0
  ensures fst(s, u, d, key, j) == fst(s, u, d, key, i)
  case j > i ==> 0 <= s[j-1] && fst(s, u, d, key, j-1) == fst(s, u, d, key, i)
  induction j from i
  trigger {fst(s, u, d, key, i), fst(s, u, d, key, j)}

// a container that has been closed does not come back
lemma closed(s: seq, d: int, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(s) && 1 <= d && dp(s, i) < d
  ensures dp(s, j) >= d ==> op(s, j, d) >= i
  case j > i ==> 0 <= s[j-1]
  induction j from i
  trigger {dp(s, i), op(s, j, d)}

lemma fstnever(s: seq, u: int, d: int, key: seq, i: int, j: int)
  requires 0 <= u && u < i && i <= j && j <= len(s) && 1 <= d && dp(s, i) < d && fst(s, u, d, key, i) < 0
  ensures fst(s, u, d, key, j) < 0
  use closed
  case j > i ==> 0 <= s[j-1] && fst(s, u, d, key, j-1) < 0
  case j > i ==> dp(s, j-1) >= d ==> op(s, j-1, d) >= i
  induction j from i
  trigger {fst(s, u, d, key, i), fst(s, u, d, key, j), dp(s, i)}

lemma fstmono(s: seq, u: int, d: int, key: seq, i: int)
  requires 0 <= u && i <= len(s) && fst(s, u, d, key, i) >= 0
  ensures fst(s, u, d, key, len(s)) == fst(s, u, d, key, i)
  use fststays
  trigger {fst(s, u, d, key, i), fst(s, u, d, key, len(s))}
  auto

lemma fstdone(s: seq, u: int, d: int, key: seq, i: int)
  requires 0 <= u && u < i && i <= len(s) && 1 <= d && dp(s, i) < d && fst(s, u, d, key, i) < 0
  ensures fst(s, u, d, key, len(s)) < 0
  use fstnever
  trigger {fst(s, u, d, key, i), fst(s, u, d, key, len(s))}
  auto

// R(s, p, k): where the value starts that the first k elements of path p address; -1 if they address nothing
logic R(s: seq, p: seqs, k: int): int
axiom R0: forall s: seq, p: seqs {R(s, p, 0)} :: R(s, p, 0) == nxs(s, 0)
def zeroth(s, u, key) = s[u] == 91 && atoiok(key) && atoi(key) == 0
axiom R1: forall s: seq, p: seqs, k: int {R(s, p, k), p[k]} :: 0 <= k && k < len(p) ==>
   (R(s, p, k) < 0 || !isopen(s[R(s, p, k)]) ==> R(s, p, k+1) == 0-1)
   && (R(s, p, k) >= 0 && s[R(s, p, k)] == 91 && !atoiok(p[k]) ==> R(s, p, k+1) == 0-1)
   && (R(s, p, k) >= 0 && zeroth(s, R(s, p, k), p[k]) && s[nxs(s, R(s, p, k)+1)] == 93 ==> R(s, p, k+1) == 0-1)
   && (R(s, p, k) >= 0 && zeroth(s, R(s, p, k), p[k]) && s[nxs(s, R(s, p, k)+1)] != 93 ==> R(s, p, k+1) == nxs(s, R(s, p, k)+1))
   && (R(s, p, k) >= 0 && (s[R(s, p, k)] == 123 || s[R(s, p, k)] == 91 && atoiok(p[k]) && atoi(p[k]) != 0) && fst(s, R(s, p, k), k+1, p[k], len(s)) < 0 ==> R(s, p, k+1) == 0-1)
   && (R(s, p, k) >= 0 && (s[R(s, p, k)] == 123 || s[R(s, p, k)] == 91 && atoiok(p[k]) && atoi(p[k]) != 0) && fst(s, R(s, p, k), k+1, p[k], len(s)) >= 0 ==> R(s, p, k+1) == nxs(s, fst(s, R(s, p, k), k+1, p[k], len(s))+1))

// nothing below a path element that addresses nothing or no container
lemma Rnone(s: seq, p: seqs, k: int, m: int)
  requires 0 <= k && k < m && m <= len(p) && (R(s, p, k) < 0 || !isopen(s[R(s, p, k)]))
  ensures R(s, p, m) < 0
  case m > k+1 ==> R(s, p, m-1) < 0
  case len(p[m-1]) >= 0
  induction m from k
  trigger {R(s, p, k), R(s, p, m)}
  auto

// the value at r ends before e (quotes included)
def vtok(c) = !ws(c) && c != 44 && c != 93 && c != 125
def spanC(s, r, e) = isopen(s[r]) && r < e && e < len(s) && dp(s, e) == dp(s, r) && st(s, e) == 5 && dp(s, e-1) == dp(s, r)+1 && op(s, e-1, dp(s, r)+1) == r && s[e-1] == s[r]+2
// the whole document, an array or object
def spanR(s, r, e) = isopen(s[r]) && r+1 < e && e <= len(s) && dp(s, e) == 0 && st(s, e) == 5 && dp(s, r) == 0 && dp(s, e-1) == 1 && op(s, e-1, 1) == r && s[e-1] == s[r]+2
def spanS(s, r, e) = s[r] == 34 && r+1 < e && e < len(s) && dp(s, e) == dp(s, r) && st(s, e) == 5 && vs(s, e) == r && st(s, e-1) == 7 && s[e-1] == 34
def spanT(s, r, e) = tok(s[r]) && r < e && e < len(s) && dp(s, e) == dp(s, r) && st(s, e) == 9 && vs(s, e) == r && !vtok(s[e])
def quoted(s, r) = ite(s[r] == 34, 1, 0)
// the error code for a path whose element k is the first that addresses nothing
def ecode(s, p, k) = ite(isopen(s[R(s, p, k)]), ite(s[R(s, p, k)] == 123, 8, ite(atoiok(p[k]), ite(atoi(p[k]) == 0 && k == len(p)-1, 2, 7), 3)), ite(k == 0 || s[R(s, p, k-1)] == 123, 8, 7))

lemma Rroot(s: seq, p: seqs, m: int)
  requires wf(s) && 0 <= m && m <= len(p)
  ensures R(s, p, 0) == nxs(s, 0) && (m >= 1 && len(s) < 2 ==> R(s, p, m) < 0)
  use Rnone
  case st(s, 0) == 0 && 0 <= s[0]
  case len(s) >= 1
  case len(s) < 2 ==> !isopen(s[0])
  case len(s) < 2 ==> !isopen(s[nxs(s, 0)])
  trigger {wf(s), R(s, p, m)}
  auto
